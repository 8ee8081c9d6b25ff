
#ifndef HELICS_CXX_EXPORT_H
#define HELICS_CXX_EXPORT_H

#ifdef HELICS_CXX_STATIC_DEFINE
#  define HELICS_CXX_EXPORT
#  define HELICS_CXX_NO_EXPORT
#else
#  ifndef HELICS_CXX_EXPORT
#    ifdef helics_part_EXPORTS
        /* We are building this library */
#      define HELICS_CXX_EXPORT 
#    else
        /* We are using this library */
#      define HELICS_CXX_EXPORT 
#    endif
#  endif

#  ifndef HELICS_CXX_NO_EXPORT
#    define HELICS_CXX_NO_EXPORT 
#  endif
#endif

#ifndef HELICS_CXX_DEPRECATED
#  define HELICS_CXX_DEPRECATED __attribute__ ((__deprecated__))
#endif

#ifndef HELICS_CXX_DEPRECATED_EXPORT
#  define HELICS_CXX_DEPRECATED_EXPORT HELICS_CXX_EXPORT HELICS_CXX_DEPRECATED
#endif

#ifndef HELICS_CXX_DEPRECATED_NO_EXPORT
#  define HELICS_CXX_DEPRECATED_NO_EXPORT HELICS_CXX_NO_EXPORT HELICS_CXX_DEPRECATED
#endif

#if 0 /* DEFINE_NO_DEPRECATED */
#  ifndef HELICS_CXX_NO_DEPRECATED
#    define HELICS_CXX_NO_DEPRECATED
#  endif
#endif

#endif /* HELICS_CXX_EXPORT_H */
