// hx - fact extractor: parses the translation units it is given with clang and writes, for every function defined
// under the source root, its resolved syntax tree and control flow graph as JSON (plus class, enum and global tables).
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/Analysis/CFG.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Index/USRGeneration.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
#include <string>
#include <unordered_map>
#include <vector>
using namespace clang;
namespace json = llvm::json;

static std::vector<std::string> gRoots;
static std::string gOutDir;
static bool gNoCfg = false;

struct Ex {
    ASTContext* C = nullptr;
    const SourceManager* SM = nullptr;
    PrintingPolicy PP{LangOptions()};
    std::unordered_map<std::string, int> strIdx;
    std::vector<std::string> strs;
    std::map<const Decl*, std::string> uidOf;
    std::map<std::string, int> uidCount;
    std::unordered_map<const FileEntry*, int> rootCache;

    std::string fileOf(SourceLocation L)
    {
        L = SM->getExpansionLoc(L);
        auto F = SM->getFileEntryRefForID(SM->getFileID(L));
        if (!F) return "";
        StringRef rp = F->getFileEntry().tryGetRealPathName();
        return (rp.empty() ? F->getName() : rp).str();
    }
    bool inRoot(SourceLocation L)
    {
        if (L.isInvalid()) return false;
        L = SM->getExpansionLoc(L);
        auto F = SM->getFileEntryRefForID(SM->getFileID(L));
        if (!F) return false;
        auto it = rootCache.find(&F->getFileEntry());
        if (it != rootCache.end()) return it->second;
        std::string f = fileOf(L);
        int ok = 0;
        for (auto& r : gRoots)
            if (f.compare(0, r.size(), r) == 0) ok = 1;
        rootCache[&F->getFileEntry()] = ok;
        return ok;
    }
    int line(SourceLocation L) { return L.isInvalid() ? 0 : (int)SM->getExpansionLineNumber(L); }
    int col(SourceLocation L) { return L.isInvalid() ? 0 : (int)SM->getExpansionColumnNumber(L); }
    std::string ty(QualType T)
    {
        if (T.isNull()) return "";
        return T.getCanonicalType().getAsString(PP);
    }
    std::string tyS(QualType T) { return T.isNull() ? "" : T.getAsString(PP); }
    std::string qn(const NamedDecl* D)
    {
        std::string s;
        llvm::raw_string_ostream o(s);
        D->printQualifiedName(o, PP);
        o.flush();
        return s;
    }
    std::string uid(const Decl* D0)
    {
        const Decl* D = D0->getCanonicalDecl();
        auto it = uidOf.find(D);
        if (it != uidOf.end()) return it->second;
        llvm::SmallString<128> buf;
        std::string u;
        if (!index::generateUSRForDecl(D, buf)) u = buf.str().str();
        else u = "?";
        if (auto* FD = dyn_cast<FunctionDecl>(D)) {
            if (auto* MD = dyn_cast<CXXMethodDecl>(FD))
                if (MD->getParent()->isLambda()) {
                    u = "lambda@" + fileOf(D->getLocation()) + ":" + std::to_string(line(MD->getParent()->getLocation())) + ":" + std::to_string(col(MD->getParent()->getLocation()));
                    if (FD->isTemplateInstantiation()) { u += "<"; for (auto* P : FD->parameters()) u += ty(P->getType()) + ","; u += ">"; }
                }
        }
        int n = uidCount[u]++;
        if (n) u += "#" + std::to_string(n);
        uidOf[D] = u;
        return u;
    }
    std::string varId(const ValueDecl* V)
    {
        if (auto* VD = dyn_cast<VarDecl>(V))
            if (VD->hasGlobalStorage() && !VD->isStaticLocal()) return qn(VD);
        std::string n = V->getNameAsString();
        if (n.empty()) n = "_";
        return n + "@" + std::to_string(line(V->getLocation())) + ":" + std::to_string(col(V->getLocation()));
    }
};

struct FnEx {
    Ex& X;
    json::Array nodes;
    std::unordered_map<const Stmt*, int> id;
    std::vector<const LambdaExpr*> lambdas;
    explicit FnEx(Ex& x): X(x) {}

    static const Stmt* strip(const Stmt* S)
    {
        while (S) {
            if (auto* E = dyn_cast<ImplicitCastExpr>(S)) S = E->getSubExpr();
            else if (auto* E = dyn_cast<ParenExpr>(S)) S = E->getSubExpr();
            else if (auto* E = dyn_cast<FullExpr>(S)) S = E->getSubExpr();
            else if (auto* E = dyn_cast<MaterializeTemporaryExpr>(S)) S = E->getSubExpr();
            else if (auto* E = dyn_cast<CXXBindTemporaryExpr>(S)) S = E->getSubExpr();
            else if (auto* E = dyn_cast<SubstNonTypeTemplateParmExpr>(S)) S = E->getReplacement();
            else if (auto* E = dyn_cast<CXXConstructExpr>(S)) {
                if (E->isElidable() && E->getNumArgs() == 1) S = E->getArg(0);
                else return S;
            } else if (auto* E = dyn_cast<CXXDefaultArgExpr>(S)) {
                if (E->getExpr()) S = E->getExpr(); else return S;
            } else if (auto* E = dyn_cast<CXXRewrittenBinaryOperator>(S)) S = E->getSemanticForm();
            else return S;
        }
        return S;
    }

    json::Object declRef(const ValueDecl* D)
    {
        json::Object o;
        if (auto* EC = dyn_cast<EnumConstantDecl>(D)) {
            o["dk"] = "enum";
            o["d"] = X.qn(EC);
            o["v"] = EC->getInitVal().getExtValue();
        } else if (auto* FD = dyn_cast<FunctionDecl>(D)) {
            o["dk"] = "func";
            o["d"] = X.qn(FD);
            o["u"] = X.uid(FD);
        } else if (auto* VD = dyn_cast<VarDecl>(D)) {
            if (isa<ParmVarDecl>(VD)) o["dk"] = "param";
            else if (VD->isStaticLocal()) o["dk"] = "slocal";
            else if (VD->hasGlobalStorage()) o["dk"] = "global";
            else o["dk"] = "local";
            o["d"] = X.varId(VD);
        } else if (isa<BindingDecl>(D)) {
            o["dk"] = "binding";
            o["d"] = X.varId(D);
        } else {
            o["dk"] = "other";
            o["d"] = X.qn(D);
        }
        o["n"] = D->getNameAsString();
        return o;
    }

    void calleeInfo(json::Object& o, const FunctionDecl* FD)
    {
        if (!FD) return;
        o["fn"] = X.qn(FD);
        o["fu"] = X.uid(FD);
        if (auto* P = FD->getPrimaryTemplate()) (void)P;
        if (auto* MD = dyn_cast<CXXMethodDecl>(FD)) {
            o["cls"] = X.qn(MD->getParent());
            if (MD->isConst()) o["cm"] = true;
            if (MD->isStatic()) o["sm"] = true;
        }
        if (auto* PT = FD->getType()->getAs<FunctionProtoType>()) {
            if (PT->canThrow() == CT_Cannot) o["nx"] = true;
            json::Array pt;
            for (auto T : PT->param_types()) pt.push_back(X.ty(T));
            o["pt"] = std::move(pt);
        }
        if (FD->isNoReturn()) o["nr"] = true;
        if (X.inRoot(FD->getLocation())) o["in"] = true;
    }

    int add(const Stmt* S0)
    {
        const Stmt* S = strip(S0);
        if (!S) return -1;
        auto it = id.find(S);
        if (it != id.end()) return it->second;
        int my = (int)nodes.size();
        id[S] = my;
        nodes.push_back(nullptr);
        json::Object o;
        o["k"] = S->getStmtClassName();
        o["l"] = X.line(S->getBeginLoc());
        o["b"] = X.col(S->getBeginLoc());
        json::Array ch;
        bool dflt = true;
        if (auto* E = dyn_cast<Expr>(S)) {
            o["t"] = X.ty(E->getType());
            if (E->isLValue()) o["lv"] = true;
            if (!E->getType().isNull() && !E->isValueDependent() && !E->isTypeDependent() && E->getType()->isIntegralOrEnumerationType() && !isa<IntegerLiteral>(E) && !E->containsErrors()) {
                Expr::EvalResult R;
                if (E->EvaluateAsInt(R, *X.C, Expr::SE_NoSideEffects, false) && R.Val.isInt()) {
                    auto v = R.Val.getInt();
                    if (v.getSignificantBits() <= 64) o["v"] = v.isSigned() ? v.getSExtValue() : (int64_t)v.getZExtValue();
                }
            }
        }
        if (auto* E = dyn_cast<DeclRefExpr>(S)) {
            for (auto& kv : declRef(E->getDecl())) o[kv.first] = std::move(kv.second);
            if (E->refersToEnclosingVariableOrCapture()) o["cap"] = true;
        } else if (auto* E = dyn_cast<MemberExpr>(S)) {
            o["n"] = E->getMemberDecl()->getNameAsString();
            if (auto* R = dyn_cast<RecordDecl>(E->getMemberDecl()->getDeclContext())) o["cls"] = X.qn(R);
            if (E->isArrow()) o["ar"] = true;
            if (isa<CXXMethodDecl>(E->getMemberDecl())) o["mf"] = true;
            if (auto* FD = dyn_cast<FieldDecl>(E->getMemberDecl())) { (void)FD; o["fd"] = true; }
            if (E->hasQualifier()) o["qual"] = true;
        } else if (auto* E = dyn_cast<IntegerLiteral>(S)) {
            auto v = E->getValue();
            o["v"] = (int64_t)(v.getActiveBits() <= 64 ? v.getZExtValue() : 0);
        } else if (auto* E = dyn_cast<StringLiteral>(S)) {
            if (E->getCharByteWidth() == 1) { std::string s = E->getString().str(); o["s"] = json::isUTF8(s) ? s : json::fixUTF8(s); }
        } else if (auto* E = dyn_cast<FloatingLiteral>(S)) {
            o["fv"] = E->getValueAsApproximateDouble();
        } else if (auto* E = dyn_cast<BinaryOperator>(S)) {
            o["op"] = E->getOpcodeStr().str();
        } else if (auto* E = dyn_cast<UnaryOperator>(S)) {
            o["op"] = UnaryOperator::getOpcodeStr(E->getOpcode()).str();
            if (E->isPostfix()) o["post"] = true;
        } else if (auto* E = dyn_cast<ExplicitCastExpr>(S)) {
            o["ck"] = E->getCastKindName();
            o["to"] = X.ty(E->getTypeAsWritten());
        } else if (auto* E = dyn_cast<UnaryExprOrTypeTraitExpr>(S)) {
            if (E->isArgumentType()) o["at"] = X.ty(E->getArgumentType());
            o["tr"] = (int)E->getKind();
        } else if (auto* E = dyn_cast<CXXThrowExpr>(S)) {
            if (E->getSubExpr()) o["tt"] = X.ty(E->getSubExpr()->getType());
        } else if (auto* E = dyn_cast<CXXDeleteExpr>(S)) {
            o["arrdel"] = E->isArrayForm();
        } else if (auto* E = dyn_cast<CXXNewExpr>(S)) {
            o["arrnew"] = E->isArray();
            o["at"] = X.ty(E->getAllocatedType());
            if (E->getNumPlacementArgs() > 0) o["place"] = true;
        } else if (auto* E = dyn_cast<UnresolvedLookupExpr>(S)) {
            o["n"] = E->getName().getAsString();
        } else if (auto* E = dyn_cast<CXXDependentScopeMemberExpr>(S)) {
            o["n"] = E->getMember().getAsString();
        } else if (auto* E = dyn_cast<UnresolvedMemberExpr>(S)) {
            o["n"] = E->getMemberName().getAsString();
        } else if (auto* E = dyn_cast<DependentScopeDeclRefExpr>(S)) {
            o["n"] = E->getDeclName().getAsString();
        }
        if (auto* E = dyn_cast<CallExpr>(S)) {
            dflt = false;
            const FunctionDecl* FD = E->getDirectCallee();
            calleeInfo(o, FD);
            json::Array args;
            unsigned start = 0;
            if (auto* MC = dyn_cast<CXXMemberCallExpr>(S)) {
                if (auto* Obj = MC->getImplicitObjectArgument()) {
                    int oi = add(Obj);
                    o["obj"] = oi;
                    ch.push_back(oi);
                    if (auto* ME = dyn_cast<MemberExpr>(MC->getCallee()->IgnoreParens())) {
                        if (ME->isArrow()) o["ar"] = true;
                        if (auto* MD = MC->getMethodDecl())
                            if (MD->isVirtual() && !ME->hasQualifier()) o["virt"] = true;
                    }
                }
                if (!FD) ch.push_back(add(E->getCallee()));
            } else if (auto* OC = dyn_cast<CXXOperatorCallExpr>(S)) {
                o["op"] = getOperatorSpelling(OC->getOperator());
                if (FD && isa<CXXMethodDecl>(FD) && E->getNumArgs() > 0) {
                    int oi = add(E->getArg(0));
                    o["obj"] = oi;
                    ch.push_back(oi);
                    start = 1;
                }
            } else if (!FD) {
                int ci = add(E->getCallee());
                o["callee"] = ci;
                ch.push_back(ci);
            }
            for (unsigned i = start; i < E->getNumArgs(); ++i) {
                if (isa<CXXDefaultArgExpr>(E->getArg(i))) { }
                int a = add(E->getArg(i));
                args.push_back(a);
                ch.push_back(a);
            }
            o["args"] = std::move(args);
        } else if (auto* E = dyn_cast<CXXConstructExpr>(S)) {
            dflt = false;
            calleeInfo(o, E->getConstructor());
            if (E->getConstructor()->isCopyConstructor()) o["cc"] = true;
            if (E->getConstructor()->isMoveConstructor()) o["mc"] = true;
            json::Array args;
            for (unsigned i = 0; i < E->getNumArgs(); ++i) {
                int a = add(E->getArg(i));
                args.push_back(a);
                ch.push_back(a);
            }
            o["args"] = std::move(args);
        } else if (auto* E = dyn_cast<LambdaExpr>(S)) {
            dflt = false;
            lambdas.push_back(E);
            json::Array fns;
            if (E->isGenericLambda()) {
                if (auto* T = E->getLambdaClass()->getDependentLambdaCallOperator()) {
                    for (auto* SP : T->specializations()) fns.push_back(X.uid(SP));
                    if (fns.empty()) fns.push_back(X.uid(T->getTemplatedDecl()));
                }
            } else if (E->getCallOperator()) fns.push_back(X.uid(E->getCallOperator()));
            o["fns"] = std::move(fns);
            json::Array caps;
            auto ci = E->capture_init_begin();
            for (auto& c : E->captures()) {
                json::Object co;
                if (c.capturesThis()) co["this"] = true;
                else if (c.capturesVariable()) { co["d"] = X.varId(c.getCapturedVar()); co["n"] = c.getCapturedVar()->getNameAsString(); if (c.getCapturedVar()->isInitCapture()) co["ic"] = true; }
                co["ref"] = c.getCaptureKind() == LCK_ByRef;
                if (*ci) { int a = add(*ci); co["init"] = a; ch.push_back(a); }
                ++ci;
                caps.push_back(std::move(co));
            }
            o["caps"] = std::move(caps);
        } else if (auto* E = dyn_cast<InitListExpr>(S)) {
            dflt = false;
            const InitListExpr* L = E->isSemanticForm() ? E : (E->getSemanticForm() ? E->getSemanticForm() : E);
            for (auto* c : L->inits()) if (c) ch.push_back(add(c));
            if (!L->getType().isNull()) if (auto* R = L->getType()->getAsRecordDecl()) o["cls"] = X.qn(R);
        } else if (auto* E = dyn_cast<CXXDefaultInitExpr>(S)) {
            dflt = false;
            if (E->getExpr()) ch.push_back(add(E->getExpr()));
        } else if (auto* D = dyn_cast<DeclStmt>(S)) {
            dflt = false;
            json::Array vars;
            for (auto* d : D->decls()) {
                if (auto* V = dyn_cast<VarDecl>(d)) {
                    json::Object vo;
                    vo["d"] = X.varId(V);
                    vo["n"] = V->getNameAsString();
                    vo["t"] = X.ty(V->getType());
                    if (V->isStaticLocal()) vo["static"] = true;
                    if (V->isConstexpr()) vo["cx"] = true;
                    if (V->getInit()) {
                        int a = add(V->getInit());
                        vo["init"] = a;
                        ch.push_back(a);
                    }
                    if (auto* DD = dyn_cast<DecompositionDecl>(V)) {
                        json::Array bs;
                        for (auto* B : DD->bindings()) bs.push_back(X.varId(B));
                        vo["bind"] = std::move(bs);
                    }
                    vars.push_back(std::move(vo));
                }
            }
            o["vars"] = std::move(vars);
        } else if (auto* SW = dyn_cast<SwitchStmt>(S)) {
            dflt = false;
            if (SW->getInit()) ch.push_back(add(SW->getInit()));
            if (SW->getConditionVariableDeclStmt()) ch.push_back(add(SW->getConditionVariableDeclStmt()));
            int c = add(SW->getCond());
            o["cond"] = c;
            ch.push_back(c);
            int b = add(SW->getBody());
            o["body"] = b;
            ch.push_back(b);
            o["ct"] = X.ty(SW->getCond()->IgnoreImpCasts()->getType());
        } else if (auto* CS = dyn_cast<CaseStmt>(S)) {
            dflt = false;
            Expr::EvalResult R;
            if (CS->getLHS() && !CS->getLHS()->getType().isNull() && !CS->getLHS()->isValueDependent() && CS->getLHS()->EvaluateAsInt(R, *X.C)) o["v"] = R.Val.getInt().getExtValue();
            if (CS->getRHS() && !CS->getRHS()->isValueDependent() && CS->getRHS()->EvaluateAsInt(R, *X.C)) o["v2"] = R.Val.getInt().getExtValue();
            if (CS->getLHS()) o["lhs"] = add(CS->getLHS());
            if (CS->getSubStmt()) { int a = add(CS->getSubStmt()); o["sub"] = a; ch.push_back(a); }
        } else if (auto* I = dyn_cast<IfStmt>(S)) {
            dflt = false;
            if (I->getInit()) ch.push_back(add(I->getInit()));
            if (I->getConditionVariableDeclStmt()) ch.push_back(add(I->getConditionVariableDeclStmt()));
            int c = add(I->getCond()); o["cond"] = c; ch.push_back(c);
            int t = add(I->getThen()); o["then"] = t; ch.push_back(t);
            if (I->getElse()) { int e = add(I->getElse()); o["else"] = e; ch.push_back(e); }
            if (I->isConstexpr()) o["cx"] = true;
        } else if (auto* W = dyn_cast<ForStmt>(S)) {
            dflt = false;
            if (W->getInit()) { int a = add(W->getInit()); o["init"] = a; ch.push_back(a); }
            if (W->getCond()) { int a = add(W->getCond()); o["cond"] = a; ch.push_back(a); }
            if (W->getInc()) { int a = add(W->getInc()); o["inc"] = a; ch.push_back(a); }
            { int a = add(W->getBody()); o["body"] = a; ch.push_back(a); }
        } else if (auto* W = dyn_cast<WhileStmt>(S)) {
            dflt = false;
            if (W->getConditionVariableDeclStmt()) ch.push_back(add(W->getConditionVariableDeclStmt()));
            { int a = add(W->getCond()); o["cond"] = a; ch.push_back(a); }
            { int a = add(W->getBody()); o["body"] = a; ch.push_back(a); }
        } else if (auto* W = dyn_cast<DoStmt>(S)) {
            dflt = false;
            { int a = add(W->getBody()); o["body"] = a; ch.push_back(a); }
            { int a = add(W->getCond()); o["cond"] = a; ch.push_back(a); }
        } else if (auto* W = dyn_cast<CXXForRangeStmt>(S)) {
            dflt = false;
            if (W->getInit()) ch.push_back(add(W->getInit()));
            if (W->getRangeStmt()) { int a = add(W->getRangeStmt()); o["range"] = a; ch.push_back(a); }
            if (W->getBeginStmt()) ch.push_back(add(W->getBeginStmt()));
            if (W->getEndStmt()) ch.push_back(add(W->getEndStmt()));
            if (W->getCond()) ch.push_back(add(W->getCond()));
            if (W->getInc()) ch.push_back(add(W->getInc()));
            if (W->getLoopVarStmt()) { int a = add(W->getLoopVarStmt()); o["lvar"] = a; ch.push_back(a); }
            { int a = add(W->getBody()); o["body"] = a; ch.push_back(a); }
        } else if (auto* T = dyn_cast<CXXTryStmt>(S)) {
            dflt = false;
            { int a = add(T->getTryBlock()); o["body"] = a; ch.push_back(a); }
            json::Array hs;
            for (unsigned i = 0; i < T->getNumHandlers(); ++i) { int a = add(T->getHandler(i)); hs.push_back(a); ch.push_back(a); }
            o["handlers"] = std::move(hs);
        } else if (auto* H = dyn_cast<CXXCatchStmt>(S)) {
            dflt = false;
            if (H->getExceptionDecl()) { o["ct"] = X.ty(H->getCaughtType()); o["d"] = X.varId(H->getExceptionDecl()); }
            else o["ct"] = "...";
            { int a = add(H->getHandlerBlock()); o["body"] = a; ch.push_back(a); }
        } else if (auto* E = dyn_cast<ConditionalOperator>(S)) {
            dflt = false;
            int c = add(E->getCond()); ch.push_back(c);
            int t = add(E->getTrueExpr()); ch.push_back(t);
            int f = add(E->getFalseExpr()); ch.push_back(f);
        }
        if (dflt)
            for (auto* c : S->children())
                if (c) ch.push_back(add(c));
        if (!ch.empty()) o["c"] = std::move(ch);
        nodes[my] = std::move(o);
        return my;
    }
};

class V: public RecursiveASTVisitor<V> {
  public:
    Ex& X;
    json::Array funcs, records, enums, globals;
    std::set<const Decl*> done;
    explicit V(Ex& x): X(x) {}
    bool shouldVisitTemplateInstantiations() const { return true; }
    bool shouldVisitImplicitCode() const { return false; }

    void emit(const FunctionDecl* FD, const std::string& parent)
    {
        if (!FD->doesThisDeclarationHaveABody()) return;
        if (!done.insert(FD).second) return;
        const Stmt* Body = FD->getBody();
        if (!Body) return;
        FnEx F(X);
        json::Object o;
        o["n"] = X.qn(FD);
        o["u"] = X.uid(FD);
        o["f"] = X.fileOf(FD->getLocation());
        o["l"] = X.line(FD->getLocation());
        o["el"] = X.line(Body->getEndLoc());
        o["ret"] = X.ty(FD->getReturnType());
        json::Array ps;
        for (auto* P : FD->parameters()) {
            json::Object po;
            po["d"] = X.varId(P);
            po["n"] = P->getNameAsString();
            po["t"] = X.ty(P->getType());
            ps.push_back(std::move(po));
        }
        o["params"] = std::move(ps);
        if (FD->isDependentContext()) o["dep"] = true;
        if (FD->isTemplateInstantiation()) o["inst"] = true;
        if (FD->isExternC()) o["c"] = true;
        if (FD->isDefaulted()) o["deflt"] = true;
        if (FD->getFormalLinkage() == Linkage::Internal) o["internal"] = true;
        if (auto* PT = FD->getType()->getAs<FunctionProtoType>())
            if (!FD->isDependentContext() && PT->canThrow() == CT_Cannot) o["nx"] = true;
        if (auto* MD = dyn_cast<CXXMethodDecl>(FD)) {
            o["cls"] = X.qn(MD->getParent());
            o["mn"] = MD->getNameAsString();
            if (MD->getParent()->isLambda()) o["lambda"] = true;
            if (MD->isVirtual()) o["virt"] = true;
            if (MD->isConst()) o["const"] = true;
            if (MD->isStatic()) o["static"] = true;
            o["acc"] = (int)MD->getAccess();
            json::Array ov;
            for (auto* B : MD->overridden_methods()) ov.push_back(X.uid(B));
            if (!ov.empty()) o["ov"] = std::move(ov);
        }
        if (!parent.empty()) o["parent"] = parent;
        if (auto* CD = dyn_cast<CXXConstructorDecl>(FD)) {
            o["ctor"] = CD->isCopyConstructor() ? "copy" : CD->isMoveConstructor() ? "move" : "yes";
            json::Array ini;
            for (auto* I : CD->inits()) {
                json::Object io;
                if (I->isAnyMemberInitializer()) io["m"] = I->getAnyMember()->getNameAsString();
                else if (I->isBaseInitializer()) io["base"] = X.ty(QualType(I->getBaseClass(), 0));
                else if (I->isDelegatingInitializer()) io["deleg"] = true;
                if (I->isWritten()) io["w"] = true;
                io["e"] = F.add(I->getInit());
                ini.push_back(std::move(io));
            }
            o["inits"] = std::move(ini);
        }
        if (isa<CXXDestructorDecl>(FD)) o["dtor"] = true;
        o["root"] = F.add(Body);
        if (!gNoCfg && !FD->isDependentContext()) {
            CFG::BuildOptions BO;
            BO.AddImplicitDtors = true;
            BO.AddTemporaryDtors = true;
            BO.AddInitializers = true;
            BO.AddEHEdges = true;
            BO.AddCXXDefaultInitExprInCtors = true;
            BO.setAllAlwaysAdd();
            auto cfg = CFG::buildCFG(FD, const_cast<Stmt*>(Body), X.C, BO);
            if (cfg) {
                json::Object co;
                co["entry"] = (int)cfg->getEntry().getBlockID();
                co["exit"] = (int)cfg->getExit().getBlockID();
                json::Array bl;
                std::set<const Stmt*> own;
                for (const CFGBlock* B : *cfg)
                    for (auto& El : *B)
                        if (auto S = El.getAs<CFGStmt>()) own.insert(S->getStmt());
                for (const CFGBlock* B : *cfg) {
                    json::Object bo;
                    bo["id"] = (int)B->getBlockID();
                    json::Array es;
                    for (auto& El : *B) {
                        if (auto S = El.getAs<CFGStmt>()) {
                            const Stmt* st = FnEx::strip(S->getStmt());
                            if (st != S->getStmt() && own.count(st)) continue;
                            auto it = F.id.find(st);
                            int n = it != F.id.end() ? it->second : F.add(st);
                            if (!es.empty()) { auto li = es.back().getAsInteger(); if (li && *li == n) continue; }
                            es.push_back(n);
                        } else if (auto D = El.getAs<CFGAutomaticObjDtor>()) {
                            json::Object d;
                            d["dtor"] = X.varId(D->getVarDecl());
                            d["t"] = X.ty(D->getVarDecl()->getType());
                            es.push_back(std::move(d));
                        } else if (auto D = El.getAs<CFGTemporaryDtor>()) {
                            json::Object d;
                            d["tdtor"] = F.add(D->getBindTemporaryExpr());
                            d["t"] = X.ty(D->getBindTemporaryExpr()->getType());
                            es.push_back(std::move(d));
                        } else if (auto D = El.getAs<CFGInitializer>()) {
                            json::Object d;
                            auto* I = D->getInitializer();
                            if (I->isAnyMemberInitializer()) d["init"] = I->getAnyMember()->getNameAsString();
                            else d["init"] = "";
                            d["e"] = F.add(I->getInit());
                            es.push_back(std::move(d));
                        }
                    }
                    bo["e"] = std::move(es);
                    if (const Stmt* T = B->getTerminatorStmt()) {
                        bo["t"] = F.add(T);
                        bo["tk"] = T->getStmtClassName();
                        if (auto* BOp = dyn_cast<BinaryOperator>(T)) bo["tk"] = BOp->getOpcodeStr().str();
                        if (const Stmt* Cn = B->getTerminatorCondition(true)) bo["c"] = F.add(Cn);
                        if (B->getTerminator().isTemporaryDtorsBranch()) bo["td"] = true;
                    }
                    if (const Stmt* L = B->getLabel()) bo["lab"] = F.add(L);
                    if (B->hasNoReturnElement()) bo["nr"] = true;
                    json::Array su;
                    for (auto I = B->succ_begin(); I != B->succ_end(); ++I) {
                        if (const CFGBlock* R = I->getReachableBlock()) su.push_back((int)R->getBlockID());
                        else if (const CFGBlock* U = I->getPossiblyUnreachableBlock()) su.push_back(-2 - (int)U->getBlockID());
                        else su.push_back(-1);
                    }
                    bo["s"] = std::move(su);
                    bl.push_back(std::move(bo));
                }
                co["b"] = std::move(bl);
                o["cfg"] = std::move(co);
            }
        }
        std::string me = X.uid(FD);
        o["nodes"] = std::move(F.nodes);
        funcs.push_back(std::move(o));
        lambdas(F, me);
    }

    void lambdas(FnEx& F, const std::string& me)
    {
        for (auto* L : F.lambdas) {
            if (L->isGenericLambda()) {
                if (auto* T = L->getLambdaClass()->getDependentLambdaCallOperator()) {
                    bool any = false;
                    for (auto* SP : T->specializations()) { emit(SP, me); any = true; }
                    if (!any) emit(T->getTemplatedDecl(), me);
                }
            } else if (L->getCallOperator()) emit(L->getCallOperator(), me);
        }
    }

    bool VisitFunctionDecl(FunctionDecl* FD)
    {
        if (!FD->doesThisDeclarationHaveABody() || !X.inRoot(FD->getLocation())) return true;
        if (FD->isDefaulted() && !FD->isUserProvided()) return true;
        if (auto* MD = dyn_cast<CXXMethodDecl>(FD))
            if (MD->getParent()->isLambda()) return true;  // emitted with the enclosing function
        emit(FD, "");
        return true;
    }
    bool VisitVarDecl(VarDecl* VD)
    {
        if (!VD->hasGlobalStorage() || VD->isStaticLocal() || !X.inRoot(VD->getLocation())) return true;
        if (VD->getDeclContext()->isDependentContext()) return true;
        json::Object o;
        o["n"] = X.qn(VD);
        o["t"] = X.ty(VD->getType());
        o["f"] = X.fileOf(VD->getLocation());
        o["l"] = X.line(VD->getLocation());
        if (VD->getType().isConstQualified()) o["const"] = true;
        if (VD->isConstexpr()) o["cx"] = true;
        if (VD->hasInit() && VD->getInit() && !VD->getInit()->isValueDependent()) {
            FnEx F(X);
            o["root"] = F.add(VD->getInit());
            if (VD->getType()->isIntegralOrEnumerationType()) {
                if (auto* val = VD->evaluateValue()) if (val->isInt()) o["v"] = val->getInt().getExtValue();
            }
            lambdas(F, "global:" + X.qn(VD));
            o["nodes"] = std::move(F.nodes);
        }
        globals.push_back(std::move(o));
        return true;
    }
    bool VisitEnumDecl(EnumDecl* D)
    {
        if (!D->isThisDeclarationADefinition() || !X.inRoot(D->getLocation())) return true;
        json::Object o;
        o["n"] = X.qn(D);
        if (D->getTypedefNameForAnonDecl()) o["n"] = X.qn(D->getTypedefNameForAnonDecl());
        o["f"] = X.fileOf(D->getLocation());
        o["l"] = X.line(D->getLocation());
        json::Array es;
        for (auto* E : D->enumerators()) es.push_back(json::Array{E->getNameAsString(), E->getInitVal().getExtValue(), X.line(E->getLocation())});
        o["e"] = std::move(es);
        enums.push_back(std::move(o));
        return true;
    }
    bool VisitCXXRecordDecl(CXXRecordDecl* D)
    {
        if (!D->isThisDeclarationADefinition() || !X.inRoot(D->getLocation()) || D->isLambda()) return true;
        if (D->isDependentContext()) return true;
        if (!done.insert(D).second) return true;
        json::Object o;
        o["n"] = X.qn(D);
        o["f"] = X.fileOf(D->getLocation());
        o["l"] = X.line(D->getLocation());
        json::Array bs;
        for (auto& B : D->bases()) bs.push_back(X.ty(B.getType()));
        o["bases"] = std::move(bs);
        json::Array fs;
        for (auto* F : D->fields()) {
            json::Object fo;
            fo["n"] = F->getNameAsString();
            fo["t"] = X.ty(F->getType());
            fo["l"] = X.line(F->getLocation());
            fo["acc"] = (int)F->getAccess();
            if (F->hasInClassInitializer()) fo["init"] = true;
            if (F->isMutable()) fo["mut"] = true;
            fs.push_back(std::move(fo));
        }
        o["fields"] = std::move(fs);
        json::Array ms;
        for (auto* M : D->methods()) {
            json::Object mo;
            mo["n"] = M->getNameAsString();
            mo["u"] = X.uid(M);
            mo["acc"] = (int)M->getAccess();
            if (M->isVirtual()) mo["virt"] = true;
            if (M->isPureVirtual()) mo["pure"] = true;
            if (M->isConst()) mo["const"] = true;
            if (M->isImplicit()) mo["impl"] = true;
            if (M->isDeleted()) mo["del"] = true;
            if (M->isDefaulted()) mo["deflt"] = true;
            mo["ret"] = X.ty(M->getReturnType());
            json::Array pt;
            for (auto* P : M->parameters()) pt.push_back(X.ty(P->getType()));
            mo["pt"] = std::move(pt);
            json::Array ov;
            for (auto* B : M->overridden_methods()) ov.push_back(X.uid(B));
            if (!ov.empty()) mo["ov"] = std::move(ov);
            mo["l"] = X.line(M->getLocation());
            ms.push_back(std::move(mo));
        }
        o["methods"] = std::move(ms);
        records.push_back(std::move(o));
        return true;
    }
    json::Array protos;
    bool VisitFunctionProto(FunctionDecl* FD) { return true; }
};

class Consumer: public ASTConsumer {
  public:
    CompilerInstance& CI;
    std::string file;
    Ex X;
    Consumer(CompilerInstance& ci, std::string f): CI(ci), file(std::move(f)) { X.SM = &CI.getSourceManager(); }
    bool shouldSkipFunctionBody(Decl* D) override
    {
        if (X.inRoot(D->getLocation())) return false;
        // bodies of the standard algorithms are needed to instantiate the lambdas given to them
        std::string f = X.fileOf(D->getLocation());
        for (auto* k : {"/stl_algo.h", "/erase_if.h", "/predefined_ops.h", "/stl_algobase.h", "/stl_numeric.h", "/ranges_algo.h", "/DualStringMappedVector.hpp", "/StringMappedVector.hpp", "/MappedVector.hpp", "/MappedPointerVector.hpp", "/DualMappedPointerVector.hpp"})
            if (f.size() > strlen(k) && f.find(k) != std::string::npos) return false;
        for (auto* k : {"/unordered_map", "/map", "/vector", "/deque", "/set", "/list"})
            if (f.size() > strlen(k) && f.compare(f.size() - strlen(k), std::string::npos, k) == 0) return false;
        return true;
    }
    void HandleTranslationUnit(ASTContext& C) override
    {
        X.C = &C;
        X.SM = &C.getSourceManager();
        X.PP = PrintingPolicy(C.getLangOpts());
        X.PP.SuppressDefaultTemplateArgs = true;
        X.PP.SuppressTagKeyword = true;
        X.PP.Bool = true;
        X.PP.AnonymousTagLocations = false;
        V v(X);
        v.TraverseDecl(C.getTranslationUnitDecl());
        json::Array protos;
        // extern "C" declarations
        std::function<void(const DeclContext*)> walk = [&](const DeclContext* DC) {
            for (auto* d : DC->decls()) {
                if (auto* L = dyn_cast<LinkageSpecDecl>(d)) walk(L);
                else if (auto* FD = dyn_cast<FunctionDecl>(d)) {
                    if (!X.inRoot(FD->getLocation()) || !FD->isExternC()) continue;
                    json::Object o;
                    o["n"] = FD->getNameAsString();
                    o["f"] = X.fileOf(FD->getLocation());
                    o["l"] = X.line(FD->getLocation());
                    o["def"] = FD->doesThisDeclarationHaveABody();
                    o["ret"] = X.ty(FD->getReturnType());
                    json::Array pt, pn;
                    for (auto* P : FD->parameters()) { pt.push_back(X.ty(P->getType())); pn.push_back(P->getNameAsString()); }
                    o["pt"] = std::move(pt);
                    o["pn"] = std::move(pn);
                    protos.push_back(std::move(o));
                }
            }
        };
        walk(C.getTranslationUnitDecl());
        json::Object top;
        top["tu"] = file;
        top["errors"] = (int)CI.getDiagnostics().hasErrorOccurred();
        top["funcs"] = std::move(v.funcs);
        top["records"] = std::move(v.records);
        top["enums"] = std::move(v.enums);
        top["globals"] = std::move(v.globals);
        top["protos"] = std::move(protos);
        std::string name = file;
        for (auto& c : name) if (c == '/') c = '_';
        std::error_code EC;
        llvm::raw_fd_ostream os(gOutDir + "/" + name + ".json", EC);
        os << json::Value(std::move(top));
    }
};
class Action: public ASTFrontendAction {
  public:
    std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance& CI, StringRef f) override
    {
        return std::make_unique<Consumer>(CI, f.str());
    }
    bool BeginInvocation(CompilerInstance& CI) override
    {
        CI.getFrontendOpts().SkipFunctionBodies = true;
        return true;
    }
};

int main(int argc, char** argv)
{
    // hx -o outdir -r root [-r root..] file... -- flags
    std::vector<std::string> files, flags;
    int i = 1;
    for (; i < argc; ++i) {
        std::string a = argv[i];
        if (a == "--") { ++i; break; }
        if (a == "-o") gOutDir = argv[++i];
        else if (a == "-r") gRoots.push_back(argv[++i]);
        else if (a == "--nocfg") gNoCfg = true;
        else files.push_back(a);
    }
    for (; i < argc; ++i) flags.push_back(argv[i]);
    tooling::FixedCompilationDatabase DB(".", flags);
    tooling::ClangTool T(DB, files);
    T.clearArgumentsAdjusters();
    T.appendArgumentsAdjuster(tooling::getClangSyntaxOnlyAdjuster());
    return T.run(tooling::newFrontendActionFactory<Action>().get());
}
