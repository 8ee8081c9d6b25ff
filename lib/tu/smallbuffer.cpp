// analysis unit: the buffer class with its templated members instantiated
#include "core/SmallBuffer.hpp"
#include <string>
#include <string_view>
void instantiateSmallBuffer(const std::string& s, std::string_view v, const char* c)
{
    helics::SmallBuffer a(s);
    helics::SmallBuffer b(v);
    helics::SmallBuffer d(c);
    a = s;
    b = v;
    d = c;
    helics::SmallBuffer e(a);
    helics::SmallBuffer f(std::move(e));
    f = std::move(a);
    b = f;
    b.swap(f);
}
