// cxx2json: dumps fully resolved, typed ASTs of the functions of a translation unit that are defined
// below given path prefixes as JSON. Nothing is simplified except: parentheses, full-expression and
// temporary-binding wrappers and no-op casts are skipped, and integral constant expressions are folded.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/Mangle.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Basic/Builtins.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <fstream>
#include <map>
#include <set>
#include <deque>
using namespace clang;
using llvm::dyn_cast; using llvm::isa; using llvm::cast; using llvm::StringRef; using llvm::ArrayRef; using llvm::APSInt;
namespace js = llvm::json;

static std::vector<std::string> Prefixes;
static std::string OutPath;

struct Dumper {
    ASTContext& C;
    SourceManager& SM;
    PrintingPolicy PP;
    std::unique_ptr<MangleContext> MC;
    js::Array types, fns, records, globals;
    std::map<std::string, int> typeIdx;
    std::map<const Decl*, int> fnIdx, varIdx, recIdx;
    std::set<const Decl*> globalDone;
    std::deque<const FunctionDecl*> queue;
    int nvars = 0;

    Dumper(ASTContext& c) : C(c), SM(c.getSourceManager()), PP(c.getLangOpts())
    {
        PP.SuppressTagKeyword = true;
        PP.FullyQualifiedName = true;
        PP.PrintCanonicalTypes = true;
        PP.Bool = true;
        MC.reset(ItaniumMangleContext::create(C, C.getDiagnostics()));
    }

    std::string fileOf(SourceLocation L)
    {
        L = SM.getExpansionLoc(L);
        auto P = SM.getPresumedLoc(L);
        if (P.isInvalid()) return "";
        llvm::SmallString<256> s(P.getFilename());
        llvm::sys::path::remove_dots(s, true);
        return std::string(s);
    }
    int lineOf(SourceLocation L)
    {
        return SM.getExpansionLineNumber(L);
    }
    bool mine(SourceLocation L)
    {
        std::string f = fileOf(L);
        for (auto& p : Prefixes)
            if (f.compare(0, p.size(), p) == 0) return true;
        return false;
    }

    // ---- types -------------------------------------------------------------------------------
    int addType(const std::string& key, js::Object o)
    {
        auto it = typeIdx.find(key);
        if (it != typeIdx.end()) return it->second;
        int n = types.size();
        typeIdx[key] = n;
        types.push_back(js::Value(std::move(o)));
        return n;
    }
    std::string recKey(const RecordDecl* R)
    {
        if (auto* CR = dyn_cast<CXXRecordDecl>(R))
            if (CR->isLambda()) return "lambda#" + std::to_string((long)recId(R));
        std::string s = C.getRecordType(R).getCanonicalType().getAsString(PP);
        return s;
    }
    js::Array tmplArgs(ArrayRef<TemplateArgument> args)
    {
        js::Array a;
        for (auto& t : args) {
            switch (t.getKind()) {
                case TemplateArgument::Type: a.push_back(js::Object{ { "t", type(t.getAsType()) } }); break;
                case TemplateArgument::Integral:
                    a.push_back(js::Object{ { "i", std::string(toString(t.getAsIntegral(), 10)) } });
                    break;
                case TemplateArgument::Pack:
                    a.push_back(js::Object{ { "pack", tmplArgs(t.getPackAsArray()) } });
                    break;
                default: a.push_back(js::Object{ { "other", true } });
            }
        }
        return a;
    }
    int type(QualType Q)
    {
        if (Q.isNull()) return addType("<null>", js::Object{ { "k", "void" } });
        Q = Q.getCanonicalType();
        std::string key = Q.getAsString(PP);
        bool cst = Q.isConstQualified();
        const Type* T = Q.getTypePtr();
        if (auto* RT = dyn_cast<RecordType>(T)) {
            key = (cst ? "const " : "") + recKey(RT->getDecl());
        }
        // lambda ids inside templates args make strings ambiguous: add pointer
        if (key.find("lambda") != std::string::npos || key.find("(anonymous") != std::string::npos
            || key.find("(unnamed") != std::string::npos)
            key += "@" + std::to_string((long)T) + (cst ? "c" : "");
        auto it = typeIdx.find(key);
        if (it != typeIdx.end()) return it->second;
        // reserve
        int n = types.size();
        typeIdx[key] = n;
        types.push_back(nullptr);
        js::Object o;
        if (cst) o["c"] = true;
        if (auto* B = dyn_cast<BuiltinType>(T)) {
            if (B->getKind() == BuiltinType::Bool)
                o["k"] = "bool";
            else if (B->isInteger()) {
                o["k"] = "int";
                o["bits"] = (int64_t)C.getTypeSize(T);
                o["sg"] = B->isSignedInteger();
                o["n"] = key;
            } else if (B->isVoidType())
                o["k"] = "void";
            else if (B->isNullPtrType())
                o["k"] = "null";
            else if (B->isFloatingPoint())
                o["k"] = "float";
            else {
                o["k"] = "?";
                o["n"] = key;
            }
        } else if (auto* P = dyn_cast<PointerType>(T)) {
            o["k"] = "ptr";
            o["to"] = type(P->getPointeeType());
        } else if (auto* R = dyn_cast<ReferenceType>(T)) {
            o["k"] = "ref";
            o["rv"] = isa<RValueReferenceType>(R);
            o["to"] = type(R->getPointeeType());
        } else if (auto* E = dyn_cast<EnumType>(T)) {
            o["k"] = "enum";
            o["n"] = E->getDecl()->getQualifiedNameAsString();
            o["bits"] = (int64_t)C.getTypeSize(T);
            auto IT = E->getDecl()->getIntegerType();
            o["sg"] = IT.isNull() ? false : IT->isSignedIntegerType();
        } else if (auto* RT = dyn_cast<RecordType>(T)) {
            o["k"] = "rec";
            o["n"] = RT->getDecl()->getQualifiedNameAsString();
            o["key"] = recKey(RT->getDecl());
            if (auto* S = dyn_cast<ClassTemplateSpecializationDecl>(RT->getDecl()))
                o["args"] = tmplArgs(S->getTemplateArgs().asArray());
            o["rec"] = recId(RT->getDecl());
        } else if (auto* A = dyn_cast<ConstantArrayType>(T)) {
            o["k"] = "arr";
            o["to"] = type(A->getElementType());
            o["n"] = (int64_t)A->getSize().getZExtValue();
        } else if (auto* A = dyn_cast<ArrayType>(T)) {
            o["k"] = "arr";
            o["to"] = type(A->getElementType());
        } else if (isa<FunctionType>(T)) {
            o["k"] = "fn";
        } else {
            o["k"] = "?";
            o["n"] = key;
        }
        o["s"] = Q.getAsString(PP);
        types[n] = std::move(o);
        return n;
    }
    int recId(const RecordDecl* R)
    {
        if (R->getDefinition()) R = R->getDefinition();
        R = cast<RecordDecl>(R->getCanonicalDecl());
        auto it = recIdx.find(R);
        if (it != recIdx.end()) return it->second;
        int n = records.size();
        recIdx[R] = n;
        records.push_back(nullptr);
        js::Object o;
        o["q"] = R->getQualifiedNameAsString();
        const RecordDecl* D = R->getDefinition();
        if (D) {
            o["file"] = fileOf(D->getLocation());
            o["line"] = lineOf(D->getLocation());
            bool m = mine(D->getLocation());
            o["mine"] = m;
            auto* CR = dyn_cast<CXXRecordDecl>(D);
            if (CR && CR->isLambda()) o["lambda"] = true;
            if (m || (CR && CR->isLambda()) || D->getQualifiedNameAsString() == "regmatch_t") {
                js::Array fs;
                for (auto* F : D->fields()) {
                    js::Object fo;
                    fo["n"] = F->getNameAsString();
                    fo["t"] = type(F->getType());
                    if (F->hasInClassInitializer() && F->getInClassInitializer()) fo["init"] = expr(F->getInClassInitializer());
                    fs.push_back(std::move(fo));
                }
                o["fields"] = std::move(fs);
            }
            if (CR) {
                js::Array bs;
                for (auto& B : CR->bases()) bs.push_back(type(B.getType()));
                o["bases"] = std::move(bs);
                if (CR->isPolymorphic()) o["poly"] = true;
                if (CR->isAbstract()) o["abstract"] = true;
            }
            if (!D->isExternallyVisible()) o["internal"] = true;
        }
        o["key"] = (isa<CXXRecordDecl>(R) && cast<CXXRecordDecl>(R)->isLambda()) ?
            "lambda#" + std::to_string(n) :
            C.getRecordType(R).getCanonicalType().getAsString(PP);
        records[n] = std::move(o);
        return n;
    }

    // ---- functions ---------------------------------------------------------------------------
    int fnId(const FunctionDecl* F)
    {
        const FunctionDecl* Def = nullptr;
        if (F->hasBody(Def)) F = Def;
        F = F->getCanonicalDecl();
        auto it = fnIdx.find(F);
        if (it != fnIdx.end()) return it->second;
        int n = fns.size();
        fnIdx[F] = n;
        fns.push_back(nullptr);
        js::Object o;
        o["q"] = F->getQualifiedNameAsString();
        o["name"] = F->getNameAsString();
        if (F->getOverloadedOperator() != OO_None) o["op"] = getOperatorSpelling(F->getOverloadedOperator());
        if (unsigned b = F->getBuiltinID()) o["builtin"] = C.BuiltinInfo.getName(b);
        o["file"] = fileOf(F->getLocation());
        o["line"] = lineOf(F->getLocation());
        o["mine"] = mine(F->getLocation());
        o["rt"] = type(F->getReturnType());
        js::Array ps;
        for (auto* P : F->parameters()) ps.push_back(type(P->getType()));
        o["pt"] = std::move(ps);
        if (F->isVariadic()) o["variadic"] = true;
        if (!F->isExternallyVisible()) o["internal"] = true;
        if (auto* A = F->getTemplateSpecializationArgs()) o["ta"] = tmplArgs(A->asArray());
        if (auto* FT = F->getType()->getAs<FunctionProtoType>()) {
            auto es = FT->getExceptionSpecType();
            if (!isUnresolvedExceptionSpec(es) && FT->canThrow() == CT_Cannot) o["noexcept"] = true;
        }
        if (auto* M = dyn_cast<CXXMethodDecl>(F)) {
            o["m"] = true;
            o["rec"] = recId(M->getParent());
            if (M->isStatic()) o["static"] = true;
            if (M->isConst()) o["const"] = true;
            if (M->isVirtual()) o["virtual"] = true;
            if (M->isPureVirtual()) o["pure"] = true;
            if (M->isVirtual()) {
                js::Array ov;
                for (auto* O : M->overridden_methods()) ov.push_back(fnId(O));
                o["overrides"] = std::move(ov);
            }
        }
        const char* kind = "fn";
        if (isa<CXXConstructorDecl>(F)) {
            kind = "ctor";
            auto* K = cast<CXXConstructorDecl>(F);
            if (K->isCopyConstructor()) o["copy"] = true;
            if (K->isMoveConstructor()) o["move"] = true;
            if (K->isDefaultConstructor()) o["dflt"] = true;
        } else if (isa<CXXDestructorDecl>(F))
            kind = "dtor";
        else if (isa<CXXConversionDecl>(F))
            kind = "conv";
        else if (auto* M = dyn_cast<CXXMethodDecl>(F)) {
            kind = "method";
            if (M->isCopyAssignmentOperator()) o["copy"] = true;
            if (M->isMoveAssignmentOperator()) o["move"] = true;
        }
        o["kind"] = kind;
        if (F->isDefaulted()) o["defaulted"] = true;
        if (F->isDeleted()) o["deleted"] = true;
        if (F->isTrivial()) o["trivial"] = true;
        if (F->isImplicit()) o["implicit"] = true;
        std::string mg;
        {
            llvm::raw_string_ostream os(mg);
            if (!F->isDependentContext() && !isLambdaCtx(F)) {
                GlobalDecl GD;
                if (auto* K = dyn_cast<CXXConstructorDecl>(F))
                    GD = GlobalDecl(K, Ctor_Complete);
                else if (auto* K = dyn_cast<CXXDestructorDecl>(F))
                    GD = GlobalDecl(K, Dtor_Complete);
                else
                    GD = GlobalDecl(F);
                if (MC->shouldMangleDeclName(F))
                    MC->mangleName(GD, os);
                else
                    os << F->getNameAsString();
            }
        }
        o["mg"] = mg;
        fns[n] = std::move(o);
        queue.push_back(F);
        return n;
    }
    bool isLambdaCtx(const FunctionDecl* F)
    {
        // anything inside / parameterised by a lambda: no stable mangling wanted
        if (auto* M = dyn_cast<CXXMethodDecl>(F))
            if (M->getParent()->isLambda()) return true;
        const DeclContext* D = F->getDeclContext();
        while (D) {
            if (auto* R = dyn_cast<CXXRecordDecl>(D))
                if (R->isLambda()) return true;
            D = D->getParent();
        }
        return false;
    }
    void defineFn(const FunctionDecl* F)
    {
        int n = fnIdx[F->getCanonicalDecl()];
        const FunctionDecl* Def = nullptr;
        if (!F->hasBody(Def)) {
            // a defaulted constructor has no body until odr-used
            return;
        }
        if (Def->isDependentContext()) return;
        bool lambdaOp = false;
        if (auto* M = dyn_cast<CXXMethodDecl>(Def)) lambdaOp = M->getParent()->isLambda();
        if (!mine(Def->getLocation()) && !lambdaOp) return;
        js::Object* o = fns[n].getAsObject();
        js::Object add;
        add["file"] = fileOf(Def->getLocation());
        add["line"] = lineOf(Def->getLocation());
        add["endline"] = lineOf(Def->getEndLoc());
        js::Array ps;
        for (auto* P : Def->parameters()) {
            js::Object po;
            po["id"] = varId(P);
            po["n"] = P->getNameAsString();
            po["t"] = type(P->getType());
            ps.push_back(std::move(po));
        }
        add["params"] = std::move(ps);
        if (auto* K = dyn_cast<CXXConstructorDecl>(Def)) {
            js::Array in;
            for (auto* I : K->inits()) {
                js::Object io;
                if (I->isAnyMemberInitializer())
                    io["f"] = I->getAnyMember()->getNameAsString();
                else if (I->isBaseInitializer())
                    io["base"] = type(QualType(I->getBaseClass(), 0));
                else if (I->isDelegatingInitializer())
                    io["delegate"] = true;
                io["e"] = expr(I->getInit());
                in.push_back(std::move(io));
            }
            add["inits"] = std::move(in);
        }
        add["body"] = stmt(Def->getBody());
        o = fns[n].getAsObject();
        for (auto& kv : add) (*o)[kv.first] = std::move(kv.second);
    }
    int varId(const Decl* D)
    {
        D = D->getCanonicalDecl();
        auto it = varIdx.find(D);
        if (it != varIdx.end()) return it->second;
        return varIdx[D] = nvars++;
    }
    void global(const VarDecl* V)
    {
        V = V->getCanonicalDecl();
        if (!globalDone.insert(V).second) return;
        const VarDecl* D = nullptr;
        const Expr* I = V->getAnyInitializer(D);
        js::Object o;
        o["id"] = varId(V);
        o["q"] = V->getQualifiedNameAsString();
        o["t"] = type(V->getType());
        o["mine"] = mine(V->getLocation());
        if (V->getType().isConstQualified() || V->isConstexpr()) o["const"] = true;
        if (!V->isExternallyVisible()) o["internal"] = true;
        std::string mg;
        {
            llvm::raw_string_ostream os(mg);
            if (MC->shouldMangleDeclName(V)) MC->mangleName(V, os);
            else os << V->getNameAsString();
        }
        o["mg"] = mg;
        if (I && !I->isValueDependent() && mine(V->getLocation())) o["init"] = expr(I);
        globals.push_back(std::move(o));
    }

    // ---- statements --------------------------------------------------------------------------
    js::Value stmts(const Stmt* S) { return S ? stmt(S) : js::Value(nullptr); }
    js::Value varDecl(const VarDecl* V)
    {
        js::Object o;
        o["id"] = varId(V);
        o["n"] = V->getNameAsString();
        o["t"] = type(V->getType());
        if (V->isStaticLocal()) o["static"] = true;
        if (V->hasInit()) o["init"] = expr(V->getInit());
        return o;
    }
    js::Value stmt(const Stmt* S)
    {
        js::Object o;
        o["l"] = lineOf(S->getBeginLoc());
        if (auto* E = dyn_cast<Expr>(S)) {
            o["s"] = "expr";
            o["e"] = expr(E);
            return o;
        }
        switch (S->getStmtClass()) {
            case Stmt::CompoundStmtClass: {
                o["s"] = "block";
                js::Array a;
                for (auto* c : cast<CompoundStmt>(S)->body()) a.push_back(stmt(c));
                o["b"] = std::move(a);
                return o;
            }
            case Stmt::DeclStmtClass: {
                o["s"] = "decl";
                js::Array a;
                for (auto* D : cast<DeclStmt>(S)->decls())
                    if (auto* V = dyn_cast<VarDecl>(D)) a.push_back(varDecl(V));
                o["v"] = std::move(a);
                return o;
            }
            case Stmt::IfStmtClass: {
                auto* I = cast<IfStmt>(S);
                o["s"] = "if";
                if (I->getInit()) o["init"] = stmt(I->getInit());
                if (auto* V = I->getConditionVariable()) o["var"] = varDecl(V);
                o["c"] = expr(I->getCond());
                o["t"] = stmt(I->getThen());
                o["e"] = stmts(I->getElse());
                return o;
            }
            case Stmt::WhileStmtClass: {
                auto* I = cast<WhileStmt>(S);
                o["s"] = "while";
                if (auto* V = I->getConditionVariable()) o["var"] = varDecl(V);
                o["c"] = expr(I->getCond());
                o["b"] = stmt(I->getBody());
                return o;
            }
            case Stmt::DoStmtClass: {
                auto* I = cast<DoStmt>(S);
                o["s"] = "do";
                o["c"] = expr(I->getCond());
                o["b"] = stmt(I->getBody());
                return o;
            }
            case Stmt::ForStmtClass: {
                auto* I = cast<ForStmt>(S);
                o["s"] = "for";
                o["init"] = stmts(I->getInit());
                if (auto* V = I->getConditionVariable()) o["var"] = varDecl(V);
                if (I->getCond()) o["c"] = expr(I->getCond());
                if (I->getInc()) o["inc"] = expr(I->getInc());
                o["b"] = stmt(I->getBody());
                return o;
            }
            case Stmt::CXXForRangeStmtClass: {
                auto* I = cast<CXXForRangeStmt>(S);
                o["s"] = "rfor";
                if (I->getInit()) o["init"] = stmt(I->getInit());
                o["range"] = stmt(I->getRangeStmt());
                o["begin"] = stmt(I->getBeginStmt());
                o["end"] = stmt(I->getEndStmt());
                o["c"] = expr(I->getCond());
                o["inc"] = expr(I->getInc());
                o["lv"] = stmt(I->getLoopVarStmt());
                o["b"] = stmt(I->getBody());
                return o;
            }
            case Stmt::ReturnStmtClass: {
                o["s"] = "ret";
                if (auto* E = cast<ReturnStmt>(S)->getRetValue()) o["e"] = expr(E);
                return o;
            }
            case Stmt::BreakStmtClass: o["s"] = "break"; return o;
            case Stmt::ContinueStmtClass: o["s"] = "continue"; return o;
            case Stmt::NullStmtClass: o["s"] = "null"; return o;
            case Stmt::SwitchStmtClass: {
                auto* I = cast<SwitchStmt>(S);
                o["s"] = "switch";
                if (I->getInit()) o["init"] = stmt(I->getInit());
                if (auto* V = I->getConditionVariable()) o["var"] = varDecl(V);
                o["c"] = expr(I->getCond());
                o["b"] = stmt(I->getBody());
                return o;
            }
            case Stmt::CaseStmtClass: {
                auto* I = cast<CaseStmt>(S);
                o["s"] = "case";
                o["v"] = expr(I->getLHS());
                if (I->getRHS()) o["v2"] = expr(I->getRHS());
                o["b"] = stmts(I->getSubStmt());
                return o;
            }
            case Stmt::DefaultStmtClass: {
                o["s"] = "default";
                o["b"] = stmts(cast<DefaultStmt>(S)->getSubStmt());
                return o;
            }
            case Stmt::CXXTryStmtClass: {
                auto* T = cast<CXXTryStmt>(S);
                o["s"] = "try";
                o["b"] = stmt(T->getTryBlock());
                js::Array hs;
                for (unsigned i = 0; i < T->getNumHandlers(); ++i) {
                    auto* H = T->getHandler(i);
                    js::Object ho;
                    if (H->getExceptionDecl()) {
                        ho["t"] = type(H->getCaughtType());
                        ho["id"] = varId(H->getExceptionDecl());
                    }
                    ho["b"] = stmt(H->getHandlerBlock());
                    hs.push_back(std::move(ho));
                }
                o["h"] = std::move(hs);
                return o;
            }
            case Stmt::AttributedStmtClass: return stmt(cast<AttributedStmt>(S)->getSubStmt());
            default:
                o["s"] = "?";
                o["n"] = S->getStmtClassName();
                return o;
        }
    }

    // ---- expressions -------------------------------------------------------------------------
    js::Value intNode(const APSInt& v, QualType T, SourceLocation L)
    {
        js::Object o;
        if (T->isBooleanType()) {
            o["k"] = "bool";
            o["v"] = v != 0;
        } else {
            o["k"] = "int";
            o["v"] = std::string(toString(v, 10));
        }
        o["t"] = type(T);
        return o;
    }
    js::Array exprs(ArrayRef<const Expr*> as)
    {
        js::Array a;
        for (auto* e : as) a.push_back(expr(e));
        return a;
    }
    template <typename It>
    js::Array args(It b, It e)
    {
        js::Array a;
        for (; b != e; ++b) a.push_back(expr(*b));
        return a;
    }
    js::Value expr(const Expr* E)
    {
        // transparent wrappers
        for (;;) {
            if (auto* P = dyn_cast<ParenExpr>(E)) E = P->getSubExpr();
            else if (auto* P = dyn_cast<ExprWithCleanups>(E)) E = P->getSubExpr();
            else if (auto* P = dyn_cast<CXXBindTemporaryExpr>(E)) E = P->getSubExpr();
            else if (auto* P = dyn_cast<ConstantExpr>(E)) E = P->getSubExpr();
            else if (auto* P = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) E = P->getReplacement();
            else if (auto* P = dyn_cast<CXXDefaultArgExpr>(E)) E = P->getExpr();
            else if (auto* P = dyn_cast<CXXDefaultInitExpr>(E)) E = P->getExpr();
            else if (auto* P = dyn_cast<GenericSelectionExpr>(E)) E = P->getResultExpr();
            else if (auto* P = dyn_cast<OpaqueValueExpr>(E); P && P->getSourceExpr()) E = P->getSourceExpr();
            else if (auto* P = dyn_cast<CXXRewrittenBinaryOperator>(E)) E = P->getSemanticForm();
            else if (auto* P = dyn_cast<CastExpr>(E);
                     P && (P->getCastKind() == CK_NoOp || P->getCastKind() == CK_FunctionToPointerDecay
                              || P->getCastKind() == CK_BuiltinFnToFnPtr || P->getCastKind() == CK_UserDefinedConversion
                              || P->getCastKind() == CK_ConstructorConversion))
                E = P->getSubExpr();
            else break;
        }
        js::Object o;
        QualType T = E->getType();
        // fold integral constants (enumerators, sizeof, constexpr)
        if (!E->isValueDependent() && !E->isTypeDependent() && E->isPRValue()
            && (T->isIntegralOrEnumerationType())
            && !isa<IntegerLiteral>(E)) {
            Expr::EvalResult R;
            if (E->EvaluateAsInt(R, C, Expr::SE_NoSideEffects)) {
                // keep calls into user code visible (constexpr functions are code under verification)
                if (!hasUserCall(E)) return intNode(R.Val.getInt(), T, E->getBeginLoc());
            }
        }
        o["t"] = type(T);
        o["l"] = lineOf(E->getBeginLoc());
        if (E->isLValue()) o["lv"] = true;
        if (E->isXValue()) o["xv"] = true;
        switch (E->getStmtClass()) {
            case Stmt::IntegerLiteralClass: {
                APSInt v(cast<IntegerLiteral>(E)->getValue(), T->isUnsignedIntegerType());
                return intNode(v, T, E->getBeginLoc());
            }
            case Stmt::CharacterLiteralClass: {
                o["k"] = "int";
                int64_t v = cast<CharacterLiteral>(E)->getValue();
                if (T->isSignedIntegerType() && C.getTypeSize(T) == 8) v = (int8_t)v;
                o["v"] = std::to_string(v);
                return o;
            }
            case Stmt::CXXBoolLiteralExprClass:
                o["k"] = "bool";
                o["v"] = cast<CXXBoolLiteralExpr>(E)->getValue();
                return o;
            case Stmt::CXXNullPtrLiteralExprClass:
            case Stmt::GNUNullExprClass: o["k"] = "null"; return o;
            case Stmt::StringLiteralClass: {
                o["k"] = "str";
                auto* L = cast<StringLiteral>(E);
                js::Array a;
                for (unsigned i = 0; i < L->getLength(); ++i) a.push_back((int64_t)L->getCodeUnit(i));
                o["v"] = std::move(a);
                return o;
            }
            case Stmt::PredefinedExprClass: return expr(cast<PredefinedExpr>(E)->getFunctionName());
            case Stmt::CXXThisExprClass: o["k"] = "this"; return o;
            case Stmt::DeclRefExprClass: {
                auto* D = cast<DeclRefExpr>(E)->getDecl();
                if (auto* F = dyn_cast<FunctionDecl>(D)) {
                    o["k"] = "fnref";
                    o["f"] = fnId(F);
                    return o;
                }
                if (auto* EC = dyn_cast<EnumConstantDecl>(D)) return intNode(EC->getInitVal(), T, E->getBeginLoc());
                if (auto* V = dyn_cast<VarDecl>(D)) {
                    o["k"] = "var";
                    o["id"] = varId(V);
                    o["n"] = V->getNameAsString();
                    o["vt"] = type(V->getType());
                    if (V->hasGlobalStorage() && !V->isStaticLocal()) {
                        o["g"] = true;
                        global(V);
                    } else if (V->hasGlobalStorage())
                        o["static"] = true;
                    return o;
                }
                break;
            }
            case Stmt::MemberExprClass: {
                auto* M = cast<MemberExpr>(E);
                auto* D = M->getMemberDecl();
                if (auto* F = dyn_cast<FunctionDecl>(D)) {
                    o["k"] = "mfnref";
                    o["f"] = fnId(F);
                    o["b"] = expr(M->getBase());
                    return o;
                }
                if (auto* V = dyn_cast<VarDecl>(D)) { // static data member
                    o["k"] = "var";
                    o["id"] = varId(V);
                    o["n"] = V->getNameAsString();
                    o["vt"] = type(V->getType());
                    o["g"] = true;
                    global(V);
                    return o;
                }
                o["k"] = "mem";
                o["f"] = D->getNameAsString();
                o["ft"] = type(D->getType());
                if (auto* FD = dyn_cast<FieldDecl>(D)) o["rec"] = recId(FD->getParent());
                if (M->isArrow()) o["ar"] = true;
                o["b"] = expr(M->getBase());
                return o;
            }
            case Stmt::ImplicitCastExprClass:
            case Stmt::CStyleCastExprClass:
            case Stmt::CXXStaticCastExprClass:
            case Stmt::CXXReinterpretCastExprClass:
            case Stmt::CXXConstCastExprClass:
            case Stmt::CXXDynamicCastExprClass:
            case Stmt::CXXFunctionalCastExprClass: {
                auto* X = cast<CastExpr>(E);
                o["k"] = "cast";
                o["ck"] = X->getCastKindName();
                o["e"] = expr(X->getSubExpr());
                return o;
            }
            case Stmt::UnaryOperatorClass: {
                auto* U = cast<UnaryOperator>(E);
                o["k"] = "un";
                o["op"] = UnaryOperator::getOpcodeStr(U->getOpcode()).str();
                if (U->isPostfix()) o["post"] = true;
                o["e"] = expr(U->getSubExpr());
                return o;
            }
            case Stmt::CompoundAssignOperatorClass: {
                auto* B = cast<CompoundAssignOperator>(E);
                o["k"] = "cassign";
                std::string op = B->getOpcodeStr().str();
                op.pop_back();
                o["op"] = op;
                o["a"] = expr(B->getLHS());
                o["b"] = expr(B->getRHS());
                o["ct"] = type(B->getComputationResultType());
                o["clt"] = type(B->getComputationLHSType());
                return o;
            }
            case Stmt::BinaryOperatorClass: {
                auto* B = cast<BinaryOperator>(E);
                o["k"] = B->getOpcode() == BO_Assign ? "assign" : "bin";
                o["op"] = B->getOpcodeStr().str();
                o["a"] = expr(B->getLHS());
                o["b"] = expr(B->getRHS());
                return o;
            }
            case Stmt::ConditionalOperatorClass: {
                auto* Q = cast<ConditionalOperator>(E);
                o["k"] = "cond";
                o["c"] = expr(Q->getCond());
                o["a"] = expr(Q->getTrueExpr());
                o["b"] = expr(Q->getFalseExpr());
                return o;
            }
            case Stmt::ArraySubscriptExprClass: {
                auto* A = cast<ArraySubscriptExpr>(E);
                o["k"] = "idx";
                o["b"] = expr(A->getBase());
                o["i"] = expr(A->getIdx());
                return o;
            }
            case Stmt::CXXOperatorCallExprClass: {
                auto* X = cast<CXXOperatorCallExpr>(E);
                auto* F = X->getDirectCallee();
                if (!F) break;
                o["k"] = "call";
                o["f"] = fnId(F);
                o["opc"] = true;
                auto b = X->arg_begin();
                if (isa<CXXMethodDecl>(F) && !cast<CXXMethodDecl>(F)->isStatic()) {
                    o["obj"] = expr(*b);
                    if (cast<CXXMethodDecl>(F)->isVirtual()) o["virt"] = true;
                    ++b;
                }
                o["a"] = args(b, X->arg_end());
                return o;
            }
            case Stmt::CXXMemberCallExprClass: {
                auto* X = cast<CXXMemberCallExpr>(E);
                auto* F = X->getMethodDecl();
                if (!F) break;
                o["k"] = "call";
                o["f"] = fnId(F);
                auto* callee = X->getCallee()->IgnoreParens();
                auto* M = dyn_cast<MemberExpr>(callee);
                if (M) {
                    o["obj"] = expr(M->getBase());
                    if (M->isArrow()) o["ar"] = true;
                    if (F->isVirtual() && !M->hasQualifier()) o["virt"] = true;
                }
                o["a"] = args(X->arg_begin(), X->arg_end());
                return o;
            }
            case Stmt::UserDefinedLiteralClass:
            case Stmt::CallExprClass: {
                auto* X = cast<CallExpr>(E);
                o["k"] = "call";
                if (auto* F = X->getDirectCallee())
                    o["f"] = fnId(F);
                else
                    o["ce"] = expr(X->getCallee());
                o["a"] = args(X->arg_begin(), X->arg_end());
                return o;
            }
            case Stmt::CXXTemporaryObjectExprClass:
            case Stmt::CXXConstructExprClass: {
                auto* X = cast<CXXConstructExpr>(E);
                o["k"] = "ctor";
                o["f"] = fnId(X->getConstructor());
                if (X->isElidable()) o["elid"] = true;
                if (X->isListInitialization()) o["list"] = true;
                if (X->requiresZeroInitialization()) o["zero"] = true;
                o["a"] = args(X->arg_begin(), X->arg_end());
                return o;
            }
            case Stmt::CXXInheritedCtorInitExprClass: break;
            case Stmt::MaterializeTemporaryExprClass: {
                o["k"] = "mtemp";
                o["e"] = expr(cast<MaterializeTemporaryExpr>(E)->getSubExpr());
                return o;
            }
            case Stmt::InitListExprClass: {
                auto* I = cast<InitListExpr>(E);
                if (I->getSemanticForm()) I = I->getSemanticForm();
                o["k"] = "list";
                if (I->isTransparent()) return expr(I->getInit(0));
                js::Array a;
                for (unsigned i = 0; i < I->getNumInits(); ++i) a.push_back(expr(I->getInit(i)));
                o["a"] = std::move(a);
                if (I->getArrayFiller()) o["fill"] = expr(I->getArrayFiller());
                return o;
            }
            case Stmt::CXXStdInitializerListExprClass: {
                o["k"] = "stdil";
                o["e"] = expr(cast<CXXStdInitializerListExpr>(E)->getSubExpr());
                return o;
            }
            case Stmt::ImplicitValueInitExprClass:
            case Stmt::CXXScalarValueInitExprClass: o["k"] = "zero"; return o;
            case Stmt::LambdaExprClass: {
                auto* L = cast<LambdaExpr>(E);
                o["k"] = "lambda";
                o["rec"] = recId(L->getLambdaClass());
                js::Array ops;
                auto* Cl = L->getLambdaClass();
                if (Cl->isGenericLambda()) {
                    if (auto* FT = Cl->getDependentLambdaCallOperator())
                        for (auto* S : FT->specializations()) ops.push_back(fnId(S));
                    o["generic"] = true;
                } else
                    ops.push_back(fnId(L->getCallOperator()));
                o["ops"] = std::move(ops);
                js::Array cs;
                auto init = L->capture_init_begin();
                auto fld = Cl->field_begin();
                for (auto& c : L->captures()) {
                    js::Object co;
                    if (c.capturesThis())
                        co["this"] = true;
                    else if (c.capturesVariable()) {
                        co["id"] = varId(c.getCapturedVar());
                        co["n"] = c.getCapturedVar()->getNameAsString();
                    }
                    co["ref"] = c.getCaptureKind() == LCK_ByRef;
                    co["init"] = expr(*init);
                    co["ft"] = type((*fld)->getType());
                    cs.push_back(std::move(co));
                    ++init;
                    ++fld;
                }
                o["caps"] = std::move(cs);
                return o;
            }
            case Stmt::CXXNewExprClass: {
                auto* N = cast<CXXNewExpr>(E);
                o["k"] = "new";
                o["at"] = type(N->getAllocatedType());
                if (N->isArray()) {
                    o["arr"] = true;
                    if (auto S = N->getArraySize()) o["n"] = expr(*S);
                }
                if (N->getInitializer()) o["e"] = expr(N->getInitializer());
                return o;
            }
            case Stmt::CXXDeleteExprClass: {
                auto* N = cast<CXXDeleteExpr>(E);
                o["k"] = "delete";
                if (N->isArrayForm()) o["arr"] = true;
                o["e"] = expr(N->getArgument());
                return o;
            }
            case Stmt::CXXThrowExprClass: {
                o["k"] = "throw";
                if (auto* S = cast<CXXThrowExpr>(E)->getSubExpr()) {
                    o["e"] = expr(S);
                    o["et"] = type(S->getType());
                }
                return o;
            }
            case Stmt::CXXTypeidExprClass: {
                o["k"] = "typeid";
                auto* X = cast<CXXTypeidExpr>(E);
                if (X->isTypeOperand())
                    o["of"] = type(X->getTypeOperand(C));
                else
                    o["e"] = expr(X->getExprOperand());
                return o;
            }
            case Stmt::ParenListExprClass: {
                auto* P = cast<ParenListExpr>(E);
                o["k"] = "list";
                js::Array a;
                for (unsigned i = 0; i < P->getNumExprs(); ++i) a.push_back(expr(P->getExpr(i)));
                o["a"] = std::move(a);
                return o;
            }
            default: break;
        }
        o["k"] = "?";
        o["n"] = E->getStmtClassName();
        return o;
    }
    bool hasUserCall(const Stmt* S)
    {
        if (auto* X = dyn_cast<CallExpr>(S))
            if (auto* F = X->getDirectCallee())
                if (mine(F->getLocation())) return true;
        if (auto* X = dyn_cast<CXXConstructExpr>(S))
            if (mine(X->getConstructor()->getLocation())) return true;
        for (auto* c : S->children())
            if (c && hasUserCall(c)) return true;
        return false;
    }
};

struct Vis : RecursiveASTVisitor<Vis> {
    Dumper& D;
    Vis(Dumper& d) : D(d) {}
    bool shouldVisitTemplateInstantiations() const { return true; }
    bool shouldVisitImplicitCode() const { return true; }
    bool VisitFunctionDecl(FunctionDecl* F)
    {
        if (F->isDependentContext() || F->isTemplated()) return true;
        if (!D.mine(F->getLocation())) return true;
        const FunctionDecl* Def;
        if (!F->hasBody(Def)) return true;
        D.fnId(Def);
        return true;
    }
    bool VisitVarDecl(VarDecl* V)
    {
        if (V->isFileVarDecl() && D.mine(V->getLocation()) && !V->getType()->isDependentType()
            && !V->getDeclContext()->isDependentContext())
            D.global(V);
        return true;
    }
};

struct Consumer : ASTConsumer {
    void HandleTranslationUnit(ASTContext& C) override
    {
        if (C.getDiagnostics().hasErrorOccurred()) return;
        Dumper D(C);
        Vis V(D);
        V.TraverseDecl(C.getTranslationUnitDecl());
        while (!D.queue.empty()) {
            auto* F = D.queue.front();
            D.queue.pop_front();
            D.defineFn(F);
        }
        js::Object o;
        o["types"] = std::move(D.types);
        o["fns"] = std::move(D.fns);
        o["records"] = std::move(D.records);
        o["globals"] = std::move(D.globals);
        std::error_code ec;
        llvm::raw_fd_ostream os(OutPath, ec);
        os << js::Value(std::move(o));
    }
};
struct Action : ASTFrontendAction {
    std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance&, StringRef) override
    {
        return std::make_unique<Consumer>();
    }
};

int main(int argc, char** argv)
{
    // usage: extract OUT PREFIX[,PREFIX] FILE -- flags
    OutPath = argv[1];
    std::string p = argv[2];
    size_t s = 0;
    while (s <= p.size()) {
        size_t e = p.find(',', s);
        if (e == std::string::npos) e = p.size();
        Prefixes.push_back(p.substr(s, e - s));
        s = e + 1;
    }
    std::vector<std::string> args{ "cxx2json" };
    for (int i = 5; i < argc; ++i) args.push_back(argv[i]);
    args.push_back("-fsyntax-only");
    args.push_back(argv[3]);
    llvm::IntrusiveRefCntPtr<FileManager> FM(new FileManager(FileSystemOptions()));
    tooling::ToolInvocation inv(args, std::make_unique<Action>(), FM.get());
    return inv.run() ? 0 : 1;
}
