// exs-extract: dumps the type-resolved program (functions with simplified,
// template-instantiated bodies, records, enums, globals) of one translation
// unit as JSON, for the Python analyses in /verif/an.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Index/USRGeneration.h"
#include "clang/Lex/Lexer.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
using namespace clang;
using llvm::json::Array;
using llvm::json::Object;
using llvm::json::Value;

static std::vector<std::string> Roots;

struct Ex : RecursiveASTVisitor<Ex> {
    ASTContext& C;
    SourceManager& SM;
    PrintingPolicy PP;
    Array fns, recs, enums, globals, protos;
    std::set<const Decl*> done;
    std::map<const Decl*, int> ids;
    std::vector<const LambdaExpr*> pendingLambdas;

    explicit Ex(ASTContext& c) : C(c), SM(c.getSourceManager()), PP(c.getPrintingPolicy())
    {
        PP.SuppressTagKeyword = true;
        PP.Bool               = true;
        PP.PrintCanonicalTypes = true;
    }
    bool shouldVisitTemplateInstantiations() const { return true; }
    bool shouldVisitImplicitCode() const { return false; }
    bool shouldVisitLambdaBody() const { return true; }

    std::string fileOf(SourceLocation L)
    {
        L = SM.getExpansionLoc(L);
        auto F = SM.getFilename(L);
        llvm::SmallString<256> P(F);
        if (!P.empty()) {
            if (auto FE = SM.getFileEntryRefForID(SM.getFileID(L))) {
                auto rp = FE->getFileEntry().tryGetRealPathName();
                if (!rp.empty()) return rp.str();
            }
        }
        return P.str().str();
    }
    bool inRoots(SourceLocation L)
    {
        if (L.isInvalid()) return false;
        auto f = fileOf(L);
        for (auto& r : Roots)
            if (f.compare(0, r.size(), r) == 0) return true;
        return false;
    }
    int line(SourceLocation L) { return SM.getExpansionLineNumber(L); }
    int id(const Decl* D)
    {
        D      = D->getCanonicalDecl();
        auto i = ids.find(D);
        if (i != ids.end()) return i->second;
        int n = ids.size() + 1;
        ids[D] = n;
        return n;
    }
    std::string ty(QualType T)
    {
        if (T.isNull()) return "";
        return T.getCanonicalType().getAsString(PP);
    }
    std::string usr(const Decl* D)
    {
        llvm::SmallString<256> B;
        if (index::generateUSRForDecl(D, B)) return "";
        return B.str().str();
    }
    std::string qn(const NamedDecl* D)
    {
        std::string s;
        llvm::raw_string_ostream os(s);
        D->printQualifiedName(os, PP);
        return os.str();
    }
    std::string macro(SourceLocation L)
    {
        std::string m;
        while (L.isMacroID()) {
            if (SM.isMacroArgExpansion(L)) { m = Lexer::getImmediateMacroName(L, SM, C.getLangOpts()).str(); L = SM.getImmediateMacroCallerLoc(L); }
            else { m = Lexer::getImmediateMacroName(L, SM, C.getLangOpts()).str(); L = SM.getImmediateExpansionRange(L).getBegin(); }
        }
        return m;
    }
    void fref(Object& o, const FunctionDecl* F)
    {
        o["fn"]  = qn(F);
        o["usr"] = usr(F);
        if (auto* M = dyn_cast<CXXMethodDecl>(F)) {
            o["cls"] = qn(M->getParent());
            if (M->isVirtual()) o["virt"] = true;
            if (M->isStatic()) o["static"] = true;
            if (M->getParent()->isLambda()) o["lambdaop"] = id(M->getParent());
            if (M->isConst()) o["cm"] = true;
        }
        if (F->getTemplateSpecializationArgs()) {
            Array a;
            targs(F->getTemplateSpecializationArgs()->asArray(), a);
            o["ta"] = std::move(a);
        }
        o["nm"] = F->getNameAsString();
        if (F->isOverloadedOperator()) o["op"] = getOperatorSpelling(F->getOverloadedOperator());
        if (F->isExternC()) o["c"] = true;
        Array pt;
        for (auto* p : F->parameters()) pt.push_back(ty(p->getType()));
        o["pt"] = std::move(pt);
    }
    void targs(llvm::ArrayRef<TemplateArgument> A, Array& out)
    {
        for (auto& t : A) {
            std::string s;
            llvm::raw_string_ostream os(s);
            if (t.getKind() == TemplateArgument::Pack) {
                targs(t.pack_elements(), out);
                continue;
            }
            t.print(PP, os, true);
            out.push_back(os.str());
        }
    }
    Array exprs(llvm::iterator_range<CallExpr::const_arg_iterator> r)
    {
        Array a;
        for (auto* e : r) a.push_back(E(e));
        return a;
    }
    Value E(const Expr* e)
    {
        if (!e) return nullptr;
        // strip
        for (;;) {
            if (auto* x = dyn_cast<ParenExpr>(e)) { e = x->getSubExpr(); continue; }
            if (auto* x = dyn_cast<ExprWithCleanups>(e)) { e = x->getSubExpr(); continue; }
            if (auto* x = dyn_cast<MaterializeTemporaryExpr>(e)) { e = x->getSubExpr(); continue; }
            if (auto* x = dyn_cast<CXXBindTemporaryExpr>(e)) { e = x->getSubExpr(); continue; }
            if (auto* x = dyn_cast<ConstantExpr>(e)) { e = x->getSubExpr(); continue; }
            if (auto* x = dyn_cast<SubstNonTypeTemplateParmExpr>(e)) { e = x->getReplacement(); continue; }
            if (auto* x = dyn_cast<CXXDefaultArgExpr>(e)) { e = x->getExpr(); continue; }
            if (auto* x = dyn_cast<CXXDefaultInitExpr>(e)) { e = x->getExpr(); continue; }
            if (auto* x = dyn_cast<CXXStdInitializerListExpr>(e)) { e = x->getSubExpr(); continue; }
            if (auto* x = dyn_cast<OpaqueValueExpr>(e)) { if (x->getSourceExpr()) { e = x->getSourceExpr(); continue; } }
            if (auto* x = dyn_cast<CastExpr>(e)) {
                switch (x->getCastKind()) {
                    case CK_LValueToRValue: case CK_FunctionToPointerDecay: case CK_ArrayToPointerDecay:
                    case CK_ConstructorConversion: case CK_BuiltinFnToFnPtr:
                    case CK_UserDefinedConversion: case CK_DerivedToBase: case CK_UncheckedDerivedToBase:
                        e = x->getSubExpr(); continue;
                    case CK_NoOp:
                        e = x->getSubExpr(); continue;
                    default: break;
                }
            }
            break;
        }
        Object o;
        o["l"] = line(e->getBeginLoc());
        o["t"] = ty(e->getType());
        if (e->getBeginLoc().isMacroID()) {
            auto m = macro(e->getBeginLoc());
            if (!m.empty()) o["m"] = m;
        }
        if (!e->isValueDependent() && !e->isTypeDependent()) {
            if (e->getType()->isIntegralOrEnumerationType()) {
                Expr::EvalResult R;
                if (e->EvaluateAsInt(R, C, Expr::SE_NoSideEffects)) {
                    auto v = R.Val.getInt();
                    llvm::SmallString<32> s;
                    v.toString(s, 10);
                    o["cv"] = s.str().str();
                }
            }
            else if (e->getType()->isFloatingType()) {
                llvm::APFloat f(0.0);
                if (e->EvaluateAsFloat(f, C, Expr::SE_NoSideEffects)) {
                    bool li;
                    llvm::APFloat d = f;
                    d.convert(llvm::APFloat::IEEEdouble(), llvm::APFloat::rmNearestTiesToEven, &li);
                    char b[64];
                    snprintf(b, 64, "%.17g", d.convertToDouble());
                    o["fv"] = std::string(b);
                }
            }
        }
        if (auto* x = dyn_cast<DeclRefExpr>(e)) {
            auto* D = x->getDecl();
            o["n"]  = D->getNameAsString();
            if (auto* F = dyn_cast<FunctionDecl>(D)) { o["k"] = "fref"; fref(o, F); }
            else if (auto* V = dyn_cast<VarDecl>(D)) {
                o["k"] = "var";
                if (V->hasGlobalStorage() && !V->isStaticLocal()) { o["g"] = qn(V); }
                if (isa<ParmVarDecl>(V)) o["p"] = true;
                o["id"] = id(V);
                o["vt"] = ty(V->getType());
            }
            else if (auto* EC = dyn_cast<EnumConstantDecl>(D)) { o["k"] = "enumc"; o["q"] = qn(EC); }
            else { o["k"] = "ref"; o["q"] = D->getQualifiedNameAsString(); if (isa<BindingDecl>(D)) o["id"] = id(D); }
            return o;
        }
        if (auto* x = dyn_cast<MemberExpr>(e)) {
            if (auto* F = dyn_cast<FunctionDecl>(x->getMemberDecl())) { o["k"] = "mfref"; fref(o, F); o["b"] = E(x->getBase()); return o; }
            if (auto* V = dyn_cast<VarDecl>(x->getMemberDecl())) { o["k"] = "var"; o["n"] = V->getNameAsString(); o["g"] = qn(V); o["id"] = id(V); o["vt"] = ty(V->getType()); return o; }
            o["k"] = "mem";
            o["n"] = x->getMemberDecl()->getNameAsString();
            if (auto* FD = dyn_cast<FieldDecl>(x->getMemberDecl())) { o["q"] = qn(FD); o["ft"] = ty(FD->getType()); }
            o["b"]  = E(x->getBase());
            if (x->isArrow()) o["arrow"] = true;
            return o;
        }
        if (auto* x = dyn_cast<CallExpr>(e)) {
            o["k"] = "call";
            Array args;
            auto* F = x->getDirectCallee();
            if (auto* mc = dyn_cast<CXXMemberCallExpr>(x)) {
                if (F) fref(o, F);
                o["obj"] = E(mc->getImplicitObjectArgument());
                if (auto* me = dyn_cast<MemberExpr>(mc->getCallee()->IgnoreParens())) { if (me->isArrow()) o["arrow"] = true; if (me->hasQualifier()) o["nonvirt"] = true; }
                for (auto* a : x->arguments()) args.push_back(E(a));
            }
            else if (auto* oc = dyn_cast<CXXOperatorCallExpr>(x)) {
                if (F) fref(o, F);
                o["opk"] = getOperatorSpelling(oc->getOperator());
                bool mem = F && isa<CXXMethodDecl>(F) && !cast<CXXMethodDecl>(F)->isStatic();
                unsigned i = 0;
                if (mem) { o["obj"] = E(x->getArg(0)); i = 1; }
                for (; i < x->getNumArgs(); i++) args.push_back(E(x->getArg(i)));
            }
            else {
                if (F) fref(o, F);
                else o["ce"] = E(x->getCallee());
                for (auto* a : x->arguments()) args.push_back(E(a));
            }
            o["a"] = std::move(args);
            return o;
        }
        if (auto* x = dyn_cast<CXXConstructExpr>(e)) {
            o["k"] = "ctor";
            auto* CD = x->getConstructor();
            o["cls"] = qn(CD->getParent());
            o["usr"] = usr(CD);
            if (CD->isCopyConstructor()) o["copy"] = true;
            if (CD->isMoveConstructor()) o["move"] = true;
            if (CD->isDefaultConstructor()) o["dflt"] = true;
            if (CD->isDefaulted() || CD->isImplicit()) o["impl"] = true;
            if (x->requiresZeroInitialization()) o["zero"] = true;
            if (isa<CXXTemporaryObjectExpr>(x)) o["tmp"] = true;
            if (x->isListInitialization()) o["list"] = true;
            o["ltt"] = ty(x->getType());
            Array args;
            for (auto* a : x->arguments()) args.push_back(E(a));
            o["a"] = std::move(args);
            return o;
        }
        if (auto* x = dyn_cast<CXXInheritedCtorInitExpr>(e)) { o["k"] = "ctor"; o["cls"] = qn(x->getConstructor()->getParent()); o["usr"] = usr(x->getConstructor()); o["inh"] = true; o["a"] = Array(); return o; }
        if (auto* x = dyn_cast<CastExpr>(e)) {
            o["k"]  = "cast";
            o["ck"] = x->getCastKindName();
            if (isa<ExplicitCastExpr>(x)) o["ex"] = true;
            o["ft"] = ty(x->getSubExpr()->getType());
            o["e"]  = E(x->getSubExpr());
            return o;
        }
        if (auto* x = dyn_cast<UnaryOperator>(e)) {
            o["k"] = "un";
            o["op"] = (x->isPostfix() ? std::string("p") : std::string("")) + UnaryOperator::getOpcodeStr(x->getOpcode()).str();
            o["e"] = E(x->getSubExpr());
            return o;
        }
        if (auto* x = dyn_cast<CompoundAssignOperator>(e)) {
            o["k"] = "cas"; o["op"] = BinaryOperator::getOpcodeStr(BinaryOperator::getOpForCompoundAssignment(x->getOpcode())).str();
            o["ct"] = ty(x->getComputationResultType());
            o["a"] = E(x->getLHS()); o["b"] = E(x->getRHS()); return o;
        }
        if (auto* x = dyn_cast<BinaryOperator>(e)) {
            o["k"] = x->isAssignmentOp() ? "as" : "bin"; o["op"] = x->getOpcodeStr().str();
            o["a"] = E(x->getLHS()); o["b"] = E(x->getRHS()); return o;
        }
        if (auto* x = dyn_cast<AbstractConditionalOperator>(e)) {
            o["k"] = "cond"; o["c"] = E(x->getCond()); o["a"] = E(x->getTrueExpr()); o["b"] = E(x->getFalseExpr()); return o;
        }
        if (auto* x = dyn_cast<ArraySubscriptExpr>(e)) { o["k"] = "sub"; o["b"] = E(x->getBase()); o["i"] = E(x->getIdx()); return o; }
        if (isa<CXXThisExpr>(e)) { o["k"] = "this"; return o; }
        if (isa<CXXNullPtrLiteralExpr>(e) || isa<GNUNullExpr>(e)) { o["k"] = "null"; return o; }
        if (auto* x = dyn_cast<StringLiteral>(e)) { o["k"] = "str"; o["v"] = llvm::json::fixUTF8(x->getBytes()); return o; }
        if (isa<IntegerLiteral>(e) || isa<CharacterLiteral>(e) || isa<CXXBoolLiteralExpr>(e) || isa<FloatingLiteral>(e) || isa<UnaryExprOrTypeTraitExpr>(e) || isa<ImplicitValueInitExpr>(e) || isa<CXXScalarValueInitExpr>(e) || isa<TypeTraitExpr>(e) || isa<SizeOfPackExpr>(e) || isa<OffsetOfExpr>(e)) {
            o["k"] = "lit";
            if (auto* u = dyn_cast<UnaryExprOrTypeTraitExpr>(e)) { o["sz"] = ty(u->getTypeOfArgument()); }
            if (isa<ImplicitValueInitExpr>(e) || isa<CXXScalarValueInitExpr>(e)) o["zero"] = true;
            return o;
        }
        if (auto* x = dyn_cast<LambdaExpr>(e)) {
            o["k"] = "lambda"; o["id"] = id(x->getLambdaClass()); o["usr"] = usr(x->getCallOperator());
            Array caps;
            auto it = x->capture_init_begin();
            for (auto& c : x->captures()) {
                Object co;
                if (c.capturesThis()) co["this"] = true;
                else if (c.capturesVariable()) { co["id"] = id(c.getCapturedVar()); co["n"] = c.getCapturedVar()->getNameAsString(); co["t"] = ty(c.getCapturedVar()->getType()); }
                co["ref"] = (c.getCaptureKind() == LCK_ByRef || c.getCaptureKind() == LCK_This);
                co["e"] = E(*it);
                ++it;
                caps.push_back(std::move(co));
            }
            o["caps"] = std::move(caps);
            return o;
        }
        if (auto* x = dyn_cast<CXXNewExpr>(e)) { o["k"] = "new"; o["nt"] = ty(x->getAllocatedType()); if (x->isArray() && x->getArraySize()) o["n"] = E(*x->getArraySize()); if (x->getInitializer()) o["e"] = E(x->getInitializer()); return o; }
        if (auto* x = dyn_cast<CXXDeleteExpr>(e)) { o["k"] = "delete"; o["e"] = E(x->getArgument()); o["arr"] = x->isArrayForm(); return o; }
        if (auto* x = dyn_cast<InitListExpr>(e)) { o["k"] = "ilist"; Array a; if (x->isSemanticForm() == false && x->getSemanticForm()) x = x->getSemanticForm(); for (auto* i : x->inits()) a.push_back(E(i)); o["a"] = std::move(a); return o; }
        if (auto* x = dyn_cast<CXXThrowExpr>(e)) { o["k"] = "throw"; o["e"] = E(x->getSubExpr()); return o; }
        if (auto* x = dyn_cast<CompoundLiteralExpr>(e)) { o["k"] = "complit"; o["e"] = E(x->getInitializer()); return o; }
        if (auto* x = dyn_cast<PredefinedExpr>(e)) { o["k"] = "str"; o["v"] = "__func__"; return o; }
        o["k"] = "other"; o["c"] = e->getStmtClassName();
        Array a;
        for (auto* ch : e->children()) if (auto* ce = dyn_cast_or_null<Expr>(ch)) a.push_back(E(ce));
        o["a"] = std::move(a);
        return o;
    }
    Value var(const VarDecl* V)
    {
        Object o;
        o["id"] = id(V); o["n"] = V->getNameAsString(); o["t"] = ty(V->getType()); o["l"] = line(V->getLocation());
        if (V->isStaticLocal()) o["static"] = true;
        if (V->hasInit()) o["e"] = E(V->getInit());
        return o;
    }
    Value S(const Stmt* s)
    {
        if (!s) return nullptr;
        if (auto* e = dyn_cast<Expr>(s)) { Object o; o["k"] = "expr"; o["l"] = line(e->getBeginLoc()); o["e"] = E(e); return o; }
        Object o;
        o["l"] = line(s->getBeginLoc());
        if (auto* x = dyn_cast<CompoundStmt>(s)) { o["k"] = "block"; Array a; for (auto* c : x->body()) a.push_back(S(c)); o["b"] = std::move(a); return o; }
        if (auto* x = dyn_cast<DeclStmt>(s)) {
            o["k"] = "decl"; Array a;
            for (auto* d : x->decls()) if (auto* V = dyn_cast<VarDecl>(d)) a.push_back(var(V));
            o["v"] = std::move(a); return o;
        }
        if (auto* x = dyn_cast<IfStmt>(s)) {
            o["k"] = "if"; if (x->getInit()) o["init"] = S(x->getInit());
            if (x->getConditionVariable()) o["cvar"] = var(x->getConditionVariable());
            o["c"] = E(x->getCond()); o["a"] = S(x->getThen()); o["b"] = S(x->getElse()); return o;
        }
        if (auto* x = dyn_cast<ForStmt>(s)) { o["k"] = "for"; o["init"] = S(x->getInit()); o["c"] = E(x->getCond()); o["inc"] = E(x->getInc()); o["b"] = S(x->getBody()); return o; }
        if (auto* x = dyn_cast<WhileStmt>(s)) { o["k"] = "while"; o["c"] = E(x->getCond()); o["b"] = S(x->getBody()); return o; }
        if (auto* x = dyn_cast<DoStmt>(s)) { o["k"] = "do"; o["c"] = E(x->getCond()); o["b"] = S(x->getBody()); return o; }
        if (auto* x = dyn_cast<CXXForRangeStmt>(s)) { o["k"] = "rfor"; o["v"] = var(x->getLoopVariable()); o["r"] = E(x->getRangeInit()); o["b"] = S(x->getBody()); return o; }
        if (auto* x = dyn_cast<ReturnStmt>(s)) { o["k"] = "ret"; if (x->getRetValue()) o["e"] = E(x->getRetValue()); return o; }
        if (isa<BreakStmt>(s)) { o["k"] = "break"; return o; }
        if (isa<ContinueStmt>(s)) { o["k"] = "continue"; return o; }
        if (isa<NullStmt>(s)) { o["k"] = "null"; return o; }
        if (auto* x = dyn_cast<SwitchStmt>(s)) { o["k"] = "switch"; o["c"] = E(x->getCond()); o["b"] = S(x->getBody()); o["all"] = x->isAllEnumCasesCovered(); return o; }
        if (auto* x = dyn_cast<CaseStmt>(s)) { o["k"] = "case"; o["e"] = E(x->getLHS()); if (x->getRHS()) o["e2"] = E(x->getRHS()); o["s"] = S(x->getSubStmt()); return o; }
        if (auto* x = dyn_cast<DefaultStmt>(s)) { o["k"] = "default"; o["s"] = S(x->getSubStmt()); return o; }
        if (auto* x = dyn_cast<LabelStmt>(s)) { o["k"] = "label"; o["s"] = S(x->getSubStmt()); return o; }
        if (auto* x = dyn_cast<AttributedStmt>(s)) { return S(x->getSubStmt()); }
        if (auto* x = dyn_cast<CXXTryStmt>(s)) { o["k"] = "try"; o["b"] = S(x->getTryBlock()); Array h; for (unsigned i = 0; i < x->getNumHandlers(); i++) h.push_back(S(x->getHandler(i)->getHandlerBlock())); o["h"] = std::move(h); return o; }
        o["k"] = "otherstmt"; o["c"] = s->getStmtClassName();
        return o;
    }
    void emitFn(const FunctionDecl* F)
    {
        if (F->isDependentContext()) return;
        if (!done.insert(F).second) return;
        Object o;
        fref(o, F);
        o["file"] = fileOf(F->getLocation()); o["line"] = line(F->getLocation()); o["end"] = line(F->getEndLoc());
        o["ret"] = ty(F->getReturnType()); o["id"] = id(F);
        if (F->isTemplateInstantiation()) { o["inst"] = true; if (auto* P = F->getTemplateInstantiationPattern()) { o["file"] = fileOf(P->getLocation()); o["line"] = line(P->getLocation()); } }
        if (F->isStatic() || F->isInAnonymousNamespace() || F->getFormalLinkage() == Linkage::Internal) o["internal"] = true;
        Array ps;
        for (auto* p : F->parameters()) { Object po; po["id"] = id(p); po["n"] = p->getNameAsString(); po["t"] = ty(p->getType()); ps.push_back(std::move(po)); }
        o["ps"] = std::move(ps);
        if (auto* M = dyn_cast<CXXMethodDecl>(F)) {
            Array ov;
            for (auto* b : M->overridden_methods()) ov.push_back(usr(b));
            o["ov"] = std::move(ov);
            if (M->getParent()->isLambda()) o["lambda"] = id(M->getParent());
            o["const"] = M->isConst();
            o["acc"] = (int)M->getAccess();
        }
        if (auto* CD = dyn_cast<CXXConstructorDecl>(F)) {
            o["isctor"] = true; if (CD->isDefaulted() || CD->isImplicit()) o["impl"] = true;
            if (CD->isCopyOrMoveConstructor()) o["copymove"] = true;
            Array in;
            for (auto* i : CD->inits()) {
                Object io;
                io["l"] = line(i->getSourceLocation().isValid() ? i->getSourceLocation() : F->getLocation());
                if (i->isAnyMemberInitializer()) { io["f"] = i->getAnyMember()->getNameAsString(); io["q"] = qn(i->getAnyMember()); }
                else if (i->isBaseInitializer()) io["base"] = ty(QualType(i->getBaseClass(), 0));
                else io["deleg"] = true;
                io["w"] = i->isWritten();
                io["e"] = E(i->getInit());
                in.push_back(std::move(io));
            }
            o["inits"] = std::move(in);
        }
        if (isa<CXXDestructorDecl>(F)) o["isdtor"] = true;
        if (F->isDefaulted()) o["dfl"] = true;
        o["body"] = S(F->getBody());
        fns.push_back(std::move(o));
    }
    bool VisitFunctionDecl(FunctionDecl* F)
    {
        if (F->isDependentContext()) return true;
        SourceLocation L = F->getLocation();
        if (auto* P = F->getTemplateInstantiationPattern()) L = P->getLocation();
        if (!inRoots(L)) return true;
        if (F->doesThisDeclarationHaveABody()) emitFn(F);
        else {
            Object o; fref(o, F); o["file"] = fileOf(L); o["line"] = line(L); o["ret"] = ty(F->getReturnType());
            if (F->isPureVirtual()) o["pure"] = true;
            if (F->isDeleted()) o["deleted"] = true;
            if (F->isDefaulted()) o["dfl"] = true;
            Array ps;
            for (auto* p : F->parameters()) { Object po; po["n"] = p->getNameAsString(); po["t"] = ty(p->getType()); ps.push_back(std::move(po)); }
            o["ps"] = std::move(ps);
            if (auto* M = dyn_cast<CXXMethodDecl>(F)) { Array ov; for (auto* b : M->overridden_methods()) ov.push_back(usr(b)); o["ov"] = std::move(ov); o["acc"] = (int)M->getAccess(); }
            protos.push_back(std::move(o));
        }
        return true;
    }
    bool VisitLambdaExpr(LambdaExpr* L)
    {
        if (!inRoots(L->getBeginLoc()) || !L->getCallOperator()) return true;
        if (!L->isGenericLambda()) { emitFn(L->getCallOperator()); return true; }
        if (auto* T = L->getCallOperator()->getDescribedFunctionTemplate())
            for (auto* F : T->specializations()) {
                const FunctionDecl* D = F->getDefinition() ? F->getDefinition() : F;
                if (!D->hasBody() || D->isDependentContext() || done.count(D)) continue;
                emitFn(D);
                TraverseStmt(D->getBody());
            }
        return true;
    }
    bool VisitCXXRecordDecl(CXXRecordDecl* R)
    {
        if (!R->isThisDeclarationADefinition() || R->isDependentContext()) return true;
        SourceLocation L = R->getLocation();
        if (auto* P = R->getTemplateInstantiationPattern()) L = P->getLocation();
        if (!inRoots(L)) return true;
        Object o;
        o["n"] = qn(R); o["file"] = fileOf(L); o["line"] = line(L); o["lambda"] = R->isLambda();
        Array f, b;
        for (auto* x : R->fields()) { Object fo; fo["n"] = x->getNameAsString(); fo["t"] = ty(x->getType()); fo["l"] = line(x->getLocation()); fo["acc"] = (int)x->getAccess(); if (x->hasInClassInitializer()) fo["init"] = E(x->getInClassInitializer()); f.push_back(std::move(fo)); }
        for (auto& x : R->bases()) b.push_back(ty(x.getType()));
        o["fields"] = std::move(f); o["bases"] = std::move(b);
        o["vdtor"] = R->getDestructor() && R->getDestructor()->isVirtual();
        o["udtor"] = R->hasUserDeclaredDestructor();
        o["abs"] = R->isAbstract(); o["poly"] = R->isPolymorphic();
        bool cdel = false;
        for (auto* c : R->ctors()) if (c->isCopyConstructor() && c->isDeleted()) cdel = true;
        o["copydel"] = cdel;
        o["usercopy"] = R->hasUserDeclaredCopyConstructor();
        recs.push_back(std::move(o));
        return true;
    }
    bool VisitRecordDecl(RecordDecl* R)
    {
        if (isa<CXXRecordDecl>(R) || !R->isThisDeclarationADefinition() || !inRoots(R->getLocation())) return true;
        Object o; o["n"] = qn(R); o["file"] = fileOf(R->getLocation()); o["line"] = line(R->getLocation());
        Array f; for (auto* x : R->fields()) { Object fo; fo["n"] = x->getNameAsString(); fo["t"] = ty(x->getType()); f.push_back(std::move(fo)); }
        o["fields"] = std::move(f); o["bases"] = Array(); recs.push_back(std::move(o)); return true;
    }
    bool VisitEnumDecl(EnumDecl* En)
    {
        if (!En->isCompleteDefinition() || !inRoots(En->getLocation())) return true;
        Object o; o["n"] = qn(En); o["file"] = fileOf(En->getLocation()); o["line"] = line(En->getLocation()); o["ut"] = ty(En->getIntegerType());
        Array a;
        for (auto* c : En->enumerators()) { Object co; co["n"] = c->getNameAsString(); llvm::SmallString<32> s; c->getInitVal().toString(s, 10); co["v"] = s.str().str(); co["l"] = line(c->getLocation()); a.push_back(std::move(co)); }
        o["c"] = std::move(a); enums.push_back(std::move(o)); return true;
    }
    bool VisitVarDecl(VarDecl* V)
    {
        if (!V->hasGlobalStorage() || V->isStaticLocal() || isa<ParmVarDecl>(V)) return true;
        if (!inRoots(V->getLocation()) || V->getDeclContext()->isDependentContext() || V->getType()->isDependentType()) return true;
        if (!V->hasInit()) { if (!V->isThisDeclarationADefinition()) return true; }
        Object o; o["n"] = qn(V); o["file"] = fileOf(V->getLocation()); o["line"] = line(V->getLocation()); o["t"] = ty(V->getType()); o["id"] = id(V);
        if (V->hasInit()) o["e"] = E(V->getInit());
        globals.push_back(std::move(o)); return true;
    }
};

static std::string Out;
struct Cons : ASTConsumer {
    void HandleTranslationUnit(ASTContext& C) override
    {
        Ex v(C);
        v.TraverseDecl(C.getTranslationUnitDecl());
        Object o;
        o["fns"] = std::move(v.fns); o["recs"] = std::move(v.recs); o["enums"] = std::move(v.enums); o["globals"] = std::move(v.globals); o["protos"] = std::move(v.protos);
        o["errors"] = (int64_t)C.getDiagnostics().getClient()->getNumErrors();
        std::error_code ec;
        llvm::raw_fd_ostream os(Out, ec);
        os << Value(std::move(o));
    }
};
struct Act : ASTFrontendAction {
    std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance& CI, llvm::StringRef) override { CI.getDiagnostics().setSuppressAllDiagnostics(false); return std::make_unique<Cons>(); }
};

// usage: exs-extract OUT.json ROOT[:ROOT...] FILE -- clang flags
int main(int argc, char** argv)
{
    if (argc < 5) return 2;
    Out = argv[1];
    std::string r = argv[2], file = argv[3];
    size_t p = 0;
    while (p <= r.size()) { auto q = r.find(':', p); if (q == std::string::npos) q = r.size(); if (q > p) Roots.push_back(r.substr(p, q - p)); p = q + 1; }
    std::vector<std::string> fl;
    for (int i = 5; i < argc; i++) fl.push_back(argv[i]);
    tooling::FixedCompilationDatabase db(".", fl);
    tooling::ClangTool T(db, {file});
    T.clearArgumentsAdjusters();
    T.appendArgumentsAdjuster(tooling::getClangSyntaxOnlyAdjuster());
    return T.run(tooling::newFrontendActionFactory<Act>().get());
}
