// Extracts Clang's typed AST of every function defined under a root directory as JSON.
// Nothing is rewritten: each C++ construct is emitted with its kind, type, implicit casts and resolved callee.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Lex/Lexer.h"
#include "clang/Tooling/Tooling.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
#include <fstream>
using namespace clang;
namespace json = llvm::json;

static std::string gRoot;

struct Dumper {
    ASTContext &C;
    SourceManager &SM;
    PrintingPolicy PP;
    json::Array types, fns;
    std::map<const void *, int64_t> typeIdx;
    std::map<const FunctionDecl *, int64_t> fnIdx;
    std::map<const ValueDecl *, int64_t> declIdx;
    json::Array functions, records, globals;
    std::set<const Decl *> doneRec, doneGlob;
    std::vector<const CXXRecordDecl *> recQueue;
    Dumper(ASTContext &C) : C(C), SM(C.getSourceManager()), PP(C.getLangOpts())
    {
        PP.SuppressTagKeyword = true;
        PP.Bool = true;
        PP.PrintCanonicalTypes = true;
        PP.FullyQualifiedName = true;
        PP.SuppressUnwrittenScope = true;
    }
    bool inRoot(SourceLocation L)
    {
        L = SM.getExpansionLoc(L);
        StringRef f = SM.getFilename(L);
        return f.starts_with(gRoot);
    }
    std::string file(SourceLocation L)
    {
        L = SM.getExpansionLoc(L);
        StringRef f = SM.getFilename(L);
        f.consume_front(gRoot);
        return f.ltrim('/').str();
    }
    int64_t line(SourceLocation L) { return SM.getExpansionLineNumber(L); }

    std::string recName(const CXXRecordDecl *R)
    {
        if (R->isLambda())
            return "lambda@" + std::to_string((uintptr_t)R->getLambdaCallOperator());
        return C.getTypeDeclType(R).getCanonicalType().getUnqualifiedType().getAsString(PP);
    }
    int64_t type(QualType T)
    {
        QualType Q = T.getCanonicalType();
        const void *k = Q.getAsOpaquePtr();
        auto it = typeIdx.find(k);
        if (it != typeIdx.end())
            return it->second;
        int64_t id = types.size();
        typeIdx[k] = id;
        types.push_back(nullptr);
        json::Object o;
        bool c = Q.isConstQualified();
        const Type *t = Q.getTypePtr();
        if (t->isVoidType())
            o["k"] = "void";
        else if (t->isBooleanType())
            o["k"] = "bool";
        else if (t->isNullPtrType())
            o["k"] = "nullptr";
        else if (auto E = t->getAs<EnumType>()) {
            o["k"] = "int";
            o["w"] = (int64_t)C.getTypeSize(Q);
            o["s"] = E->getDecl()->getIntegerType().isNull() ? true : E->getDecl()->getIntegerType()->isSignedIntegerType();
            o["en"] = E->getDecl()->getQualifiedNameAsString();
            o["scoped"] = E->getDecl()->isScoped();
            if (E->getDecl()->getIntegerType()->isBooleanType()) {o["k"]="bool";}
        } else if (t->isIntegerType()) {
            o["k"] = "int";
            o["w"] = (int64_t)C.getTypeSize(Q);
            o["s"] = t->isSignedIntegerType();
            o["n"] = Q.getUnqualifiedType().getAsString(PP);
        } else if (t->isRealFloatingType()) {
            o["k"] = "fp";
            o["w"] = (int64_t)C.getTypeSize(Q);
        } else if (auto P = t->getAs<PointerType>()) {
            o["k"] = "ptr";
            o["t"] = type(P->getPointeeType());
        } else if (auto P = t->getAs<ReferenceType>()) {
            o["k"] = "ref";
            o["rv"] = isa<RValueReferenceType>(P);
            o["t"] = type(P->getPointeeType());
        } else if (auto A = dyn_cast<ConstantArrayType>(t)) {
            o["k"] = "arr";
            o["t"] = type(A->getElementType());
            o["n"] = (int64_t)A->getSize().getZExtValue();
        } else if (auto A = dyn_cast<ArrayType>(t)) {
            o["k"] = "arr";
            o["t"] = type(A->getElementType());
            o["n"] = -1;
        } else if (t->isMemberPointerType()) {
            o["k"] = "memptr";
            o["s"] = Q.getAsString(PP);
        } else if (auto F = t->getAs<FunctionProtoType>()) {
            o["k"] = "fn";
            o["r"] = type(F->getReturnType());
            json::Array a;
            for (auto p : F->param_types())
                a.push_back(type(p));
            o["p"] = std::move(a);
        } else if (auto R = t->getAsCXXRecordDecl()) {
            o["k"] = "rec";
            o["n"] = R->getQualifiedNameAsString();
            o["q"] = recName(R);
            if (R->isLambda())
                o["lambda"] = true;
            if (!inRoot(R->getLocation()))
                o["sys"] = true;
            if (auto S = dyn_cast<ClassTemplateSpecializationDecl>(R)) {
                json::Array a;
                for (auto &A : S->getTemplateArgs().asArray())
                    targ(A, a);
                o["a"] = std::move(a);
            }
            queueRec(R);
        } else {
            o["k"] = "other";
            o["s"] = Q.getAsString(PP);
        }
        if (c)
            o["c"] = true;
        types[id] = std::move(o);
        return id;
    }
    void targ(const TemplateArgument &A, json::Array &a)
    {
        if (A.getKind() == TemplateArgument::Type)
            a.push_back(type(A.getAsType()));
        else if (A.getKind() == TemplateArgument::Integral)
            a.push_back(json::Object{{"v", A.getAsIntegral().getExtValue()}});
        else if (A.getKind() == TemplateArgument::Pack)
            for (auto &B : A.pack_elements())
                targ(B, a);
        else
            a.push_back(nullptr);
    }
    void queueRec(const CXXRecordDecl *R)
    {
        R = R->getDefinition();
        if (!R || R->isDependentContext() || R->isLambda())
            return;
        if (!inRoot(R->getLocation()))
            return;
        if (!doneRec.insert(R->getCanonicalDecl()).second)
            return;
        recQueue.push_back(R);
    }
    std::string fnKey(const FunctionDecl *F)
    {
        std::string s;
        llvm::raw_string_ostream os(s);
        if (auto M = dyn_cast<CXXMethodDecl>(F)) {
            os << recName(M->getParent()) << "::";
            if (isa<CXXConstructorDecl>(M))
                os << "(ctor)";
            else if (isa<CXXDestructorDecl>(M))
                os << "(dtor)";
            else
                os << F->getNameAsString();
        } else {
            os << F->getQualifiedNameAsString();
            if (F->getStorageClass() == SC_Static && inRoot(F->getLocation()))
                os << "@" << file(F->getLocation());
        }
        if (auto A = F->getTemplateSpecializationArgs()) {
            os << "<";
            bool first = true;
            for (auto &a : A->asArray()) {
                if (!first)
                    os << ", ";
                first = false;
                if (a.getKind() == TemplateArgument::Type) {
                    auto R = a.getAsType()->getAsCXXRecordDecl();
                    if (R && R->isLambda()) os << recName(R);
                    else os << a.getAsType().getCanonicalType().getAsString(PP);
                } else a.print(PP, os, true);
            }
            os << ">";
        }
        os << "(";
        bool first = true;
        for (auto p : F->parameters()) {
            if (!first)
                os << ", ";
            first = false;
            QualType pt = p->getType().getCanonicalType();
            os << pt.getAsString(PP);
        }
        os << ")";
        if (auto M = dyn_cast<CXXMethodDecl>(F))
            if (M->isConst())
                os << " const";
        os.flush();
        return s;
    }
    int64_t fn(const FunctionDecl *F)
    {
        auto it = fnIdx.find(F);
        if (it != fnIdx.end())
            return it->second;
        int64_t id = fns.size();
        fnIdx[F] = id;
        fns.push_back(nullptr);
        json::Object o;
        o["key"] = fnKey(F);
        o["n"] = F->getQualifiedNameAsString();
        o["name"] = F->getNameAsString();
        if (F->isOverloadedOperator())
            o["op"] = getOperatorSpelling(F->getOverloadedOperator());
        o["ret"] = type(F->getReturnType());
        json::Array pt;
        for (auto p : F->parameters())
            pt.push_back(type(p->getType()));
        o["pt"] = std::move(pt);
        if (!inRoot(F->getLocation()))
            o["sys"] = true;
        if (F->isVariadic())
            o["var"] = true;
        if (F->isNoReturn())
            o["noret"] = true;
        if (auto A = F->getTemplateSpecializationArgs()) {
            json::Array a;
            for (auto &x : A->asArray())
                targ(x, a);
            o["ta"] = std::move(a);
        }
        if (auto M = dyn_cast<CXXMethodDecl>(F)) {
            o["cls"] = M->getParent()->getQualifiedNameAsString();
            o["clsq"] = recName(M->getParent());
            o["clst"] = type(C.getTypeDeclType(M->getParent()));
            if (M->isVirtual())
                o["virt"] = true;
            if (M->isPureVirtual())
                o["pure"] = true;
            if (M->isStatic())
                o["static"] = true;
            if (M->isConst())
                o["const"] = true;
            if (isa<CXXConstructorDecl>(M)) {
                o["ctor"] = true;
                auto CD = cast<CXXConstructorDecl>(M);
                if (CD->isCopyConstructor())
                    o["copy"] = true;
                if (CD->isMoveConstructor())
                    o["move"] = true;
                if (CD->isDefaultConstructor())
                    o["defctor"] = true;
            }
            if (M->isImplicit() || M->isDefaulted())
                o["implicit"] = true;
            if (isa<CXXDestructorDecl>(M))
                o["dtor"] = true;
            if (M->isCopyAssignmentOperator())
                o["copyasg"] = true;
            if (M->isMoveAssignmentOperator())
                o["moveasg"] = true;
            json::Array ov;
            for (auto m : M->overridden_methods())
                ov.push_back(fnKey(m));
            if (!ov.empty())
                o["ov"] = std::move(ov);
            queueRec(M->getParent());
        }
        fns[id] = std::move(o);
        return id;
    }
    int64_t declId(const ValueDecl *D)
    {
        auto c = cast<ValueDecl>(D->getCanonicalDecl());
        // parameters of redeclarations differ: use definition's own pointers
        if (isa<ParmVarDecl>(D))
            c = D;
        auto it = declIdx.find(c);
        if (it != declIdx.end())
            return it->second;
        int64_t id = declIdx.size() + 1;
        declIdx[c] = id;
        return id;
    }
    void emitGlobal(const VarDecl *V)
    {
        V = V->getCanonicalDecl();
        if (!doneGlob.insert(V).second)
            return;
        const VarDecl *def = nullptr;
        const Expr *init = V->getAnyInitializer(def);
        json::Object o;
        o["n"] = V->getQualifiedNameAsString();
        o["key"] = globKey(V);
        o["t"] = type(V->getType());
        if (inRoot(V->getLocation()) && init && !init->isValueDependent()) {
            Expr::EvalResult R;
            if (V->getType()->isIntegralOrEnumerationType() && init->EvaluateAsInt(R, C))
                o["v"] = llvm::toString(R.Val.getInt(), 10);
            else
                o["init"] = expr(init);
        }
        globals.push_back(std::move(o));
    }
    std::string globKey(const VarDecl *V)
    {
        std::string s;
        if (V->isStaticDataMember()) {
            auto R = dyn_cast<CXXRecordDecl>(V->getDeclContext());
            if (R)
                return recName(R) + "::" + V->getNameAsString();
        }
        if (V->isStaticLocal())
            return "staticlocal:" + V->getNameAsString() + "@" + file(V->getLocation()) + ":" + std::to_string(line(V->getLocation()));
        s = V->getQualifiedNameAsString();
        if (V->getStorageClass() == SC_Static || V->isInAnonymousNamespace())
            s += "@" + file(V->getLocation());
        return s;
    }
    json::Value declRef(const ValueDecl *D)
    {
        json::Object o;
        o["n"] = D->getNameAsString();
        if (auto F = dyn_cast<FunctionDecl>(D)) {
            o["k"] = "fn";
            o["fd"] = fn(F);
        } else if (auto E = dyn_cast<EnumConstantDecl>(D)) {
            o["k"] = "enum";
            o["v"] = llvm::toString(E->getInitVal(), 10);
        } else if (auto P = dyn_cast<ParmVarDecl>(D)) {
            o["k"] = "var";
            o["id"] = declId(P);
        } else if (auto V = dyn_cast<VarDecl>(D)) {
            if (V->hasGlobalStorage()) {
                o["k"] = "glob";
                o["key"] = globKey(V);
                emitGlobal(V);
            } else {
                o["k"] = "var";
                o["id"] = declId(V);
            }
        } else if (auto F = dyn_cast<FieldDecl>(D)) {
            o["k"] = "field";
            o["f"] = fieldName(F);
        } else
            o["k"] = "other";
        return std::move(o);
    }
    std::string fieldName(const FieldDecl *F)
    {
        auto R = dyn_cast<CXXRecordDecl>(F->getParent());
        std::string n = F->getNameAsString();
        if (n.empty()) n = "#" + std::to_string(F->getFieldIndex());
        return (R ? recName(R) : std::string("?")) + "::" + n;
    }
    json::Value exprOrNull(const Expr *E)
    {
        if (!E)
            return nullptr;
        return expr(E);
    }
    json::Array exprs(llvm::iterator_range<CallExpr::const_arg_iterator> r)
    {
        json::Array a;
        for (auto x : r)
            a.push_back(expr(x));
        return a;
    }
    json::Value unsupported(const Stmt *S, const char *w = "")
    {
        return json::Object{{"e", "unsup"}, {"c", std::string(S->getStmtClassName()) + w}};
    }
    json::Value expr(const Expr *E)
    {
        json::Object o;
        // transparent nodes
        if (auto x = dyn_cast<ParenExpr>(E)) return expr(x->getSubExpr());
        if (auto x = dyn_cast<ExprWithCleanups>(E)) return expr(x->getSubExpr());
        if (auto x = dyn_cast<MaterializeTemporaryExpr>(E)) {
            o["e"] = "mat"; o["x"] = expr(x->getSubExpr()); o["t"] = type(E->getType());
            return std::move(o);
        }
        if (auto x = dyn_cast<CXXBindTemporaryExpr>(E)) return expr(x->getSubExpr());
        if (auto x = dyn_cast<ConstantExpr>(E)) return expr(x->getSubExpr());
        if (auto x = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) return expr(x->getReplacement());
        if (auto x = dyn_cast<CXXDefaultArgExpr>(E)) return expr(x->getExpr());
        if (auto x = dyn_cast<CXXDefaultInitExpr>(E)) return expr(x->getExpr());
        if (auto x = dyn_cast<CXXStdInitializerListExpr>(E)) {
            o["e"] = "stdinit"; o["x"] = expr(x->getSubExpr()); o["t"] = type(E->getType());
            return std::move(o);
        }
        if (auto x = dyn_cast<OpaqueValueExpr>(E)) { if (x->getSourceExpr()) return expr(x->getSourceExpr()); }
        o["t"] = type(E->getType());
        if (E->isLValue()) o["lv"] = true;
        o["ln"] = line(E->getExprLoc());
        if (auto x = dyn_cast<IntegerLiteral>(E)) {
            o["e"] = "int";
            o["v"] = llvm::toString(llvm::APSInt(x->getValue(), !E->getType()->isSignedIntegerType()), 10);
        } else if (auto x = dyn_cast<CharacterLiteral>(E)) {
            o["e"] = "int";
            o["v"] = std::to_string((int64_t)(x->getType()->isSignedIntegerType() && x->getType()->isCharType() ? (int64_t)(int8_t)x->getValue() : (int64_t)x->getValue()));
        } else if (auto x = dyn_cast<FloatingLiteral>(E)) {
            o["e"] = "fp";
            llvm::SmallString<40> s;
            x->getValue().toString(s, 60, 0);
            o["v"] = s.str().str();
        } else if (auto x = dyn_cast<CXXBoolLiteralExpr>(E)) {
            o["e"] = "bool"; o["v"] = x->getValue();
        } else if (auto x = dyn_cast<StringLiteral>(E)) {
            o["e"] = "str";
            std::string s = x->getBytes().str();
            if (!json::isUTF8(s)) s = json::fixUTF8(s);
            o["v"] = s;
        } else if (isa<CXXNullPtrLiteralExpr>(E) || isa<GNUNullExpr>(E)) {
            o["e"] = "null";
        } else if (auto x = dyn_cast<PredefinedExpr>(E)) {
            o["e"] = "str"; o["v"] = "__func__";
        } else if (auto x = dyn_cast<DeclRefExpr>(E)) {
            o["e"] = "ref"; o["d"] = declRef(x->getDecl());
            if (x->refersToEnclosingVariableOrCapture()) o["cap"] = true;
        } else if (auto x = dyn_cast<CXXThisExpr>(E)) {
            o["e"] = "this";
        } else if (auto x = dyn_cast<MemberExpr>(E)) {
            if (auto F = dyn_cast<FieldDecl>(x->getMemberDecl())) {
                o["e"] = "mem"; o["f"] = fieldName(F); o["arrow"] = x->isArrow(); o["b"] = expr(x->getBase());
                o["ft"] = type(F->getType());
            } else if (auto V = dyn_cast<VarDecl>(x->getMemberDecl())) {
                o["e"] = "ref"; o["d"] = declRef(V);
            } else if (auto V = dyn_cast<EnumConstantDecl>(x->getMemberDecl())) {
                o["e"] = "ref"; o["d"] = declRef(V);
            } else if (auto M = dyn_cast<CXXMethodDecl>(x->getMemberDecl())) {
                o["e"] = "methref"; o["fd"] = fn(M); o["b"] = expr(x->getBase()); o["arrow"] = x->isArrow();
            } else return unsupported(E, ":member");
        } else if (auto x = dyn_cast<CXXMemberCallExpr>(E)) {
            auto callee = x->getCallee()->IgnoreParens();
            if (auto ME = dyn_cast<MemberExpr>(callee)) {
                o["e"] = "mcall";
                auto M = x->getMethodDecl();
                if (!M) return unsupported(E, ":nomethod");
                o["fd"] = fn(M);
                o["o"] = expr(ME->getBase()); o["arrow"] = ME->isArrow();
                bool virt = M->isVirtual() && !ME->hasQualifier();
                // devirtualise calls on objects (not refs/pointers) is not needed
                if (virt) o["virt"] = true;
                o["a"] = exprs(x->arguments());
            } else if (auto BO = dyn_cast<BinaryOperator>(callee)) {
                o["e"] = "memptrcall"; o["o"] = expr(BO->getLHS()); o["p"] = expr(BO->getRHS());
                o["arrow"] = BO->getOpcode() == BO_PtrMemI;
                o["a"] = exprs(x->arguments());
            } else return unsupported(E, ":callee");
        } else if (auto x = dyn_cast<CXXOperatorCallExpr>(E)) {
            o["e"] = "ocall"; o["op"] = getOperatorSpelling(x->getOperator());
            auto F = x->getDirectCallee();
            if (!F) return unsupported(E, ":opcallee");
            o["fd"] = fn(F);
            o["a"] = exprs(x->arguments());
        } else if (auto x = dyn_cast<CallExpr>(E)) {
            o["e"] = "call";
            if (auto F = x->getDirectCallee()) o["fd"] = fn(F);
            else o["f"] = expr(x->getCallee());
            o["a"] = exprs(x->arguments());
        } else if (auto x = dyn_cast<CXXConstructExpr>(E)) {
            o["e"] = "ctor"; o["fd"] = fn(x->getConstructor());
            json::Array a;
            for (auto y : x->arguments()) a.push_back(expr(y));
            o["a"] = std::move(a);
            if (x->isElidable()) o["elide"] = true;
            if (x->isListInitialization()) o["list"] = true;
            if (x->isStdInitListInitialization()) o["stdlist"] = true;
        } else if (auto x = dyn_cast<CXXInheritedCtorInitExpr>(E)) {
            o["e"] = "ctor"; o["fd"] = fn(x->getConstructor()); o["a"] = json::Array{}; o["inherited"] = true;
        } else if (auto x = dyn_cast<CXXNewExpr>(E)) {
            o["e"] = "new"; o["at"] = type(x->getAllocatedType());
            if (x->isArray()) o["arr"] = x->getArraySize() ? exprOrNull(*x->getArraySize()) : json::Value(nullptr);
            o["init"] = exprOrNull(x->getInitializer());
        } else if (auto x = dyn_cast<CXXDeleteExpr>(E)) {
            o["e"] = "delete"; o["x"] = expr(x->getArgument()); o["arr"] = x->isArrayForm();
        } else if (auto x = dyn_cast<CastExpr>(E)) {
            o["e"] = "cast"; o["ck"] = x->getCastKindName(); o["x"] = expr(x->getSubExpr());
            if (isa<CXXDynamicCastExpr>(E)) o["dyn"] = true;
            if (isa<CXXReinterpretCastExpr>(E)) o["reint"] = true;
            if (x->getCastKind() == CK_UserDefinedConversion || x->getCastKind() == CK_ConstructorConversion) {}
        } else if (auto x = dyn_cast<UnaryExprOrTypeTraitExpr>(E)) {
            Expr::EvalResult R;
            if (!E->EvaluateAsInt(R, C)) return unsupported(E);
            o["e"] = "int"; o["v"] = llvm::toString(R.Val.getInt(), 10);
        } else if (auto x = dyn_cast<TypeTraitExpr>(E)) {
            o["e"] = "bool"; o["v"] = x->getValue();
        } else if (auto x = dyn_cast<UnaryOperator>(E)) {
            o["e"] = "un"; o["op"] = UnaryOperator::getOpcodeStr(x->getOpcode()).str();
            if (x->isPostfix()) o["post"] = true;
            o["x"] = expr(x->getSubExpr());
            if (x->getOpcode() == UO_AddrOf) {
                auto s = x->getSubExpr()->IgnoreParens();
                if (auto D = dyn_cast<DeclRefExpr>(s))
                    if (auto M = dyn_cast<CXXMethodDecl>(D->getDecl()))
                        if (!M->isStatic()) { o["e"] = "memfnptr"; o["fd"] = fn(M); }
            }
        } else if (auto x = dyn_cast<CompoundAssignOperator>(E)) {
            o["e"] = "cas"; o["op"] = BinaryOperator::getOpcodeStr(BinaryOperator::getOpForCompoundAssignment(x->getOpcode())).str();
            o["l"] = expr(x->getLHS()); o["r"] = expr(x->getRHS());
            o["clt"] = type(x->getComputationLHSType()); o["crt"] = type(x->getComputationResultType());
        } else if (auto x = dyn_cast<BinaryOperator>(E)) {
            o["e"] = "bin"; o["op"] = x->getOpcodeStr().str();
            o["l"] = expr(x->getLHS()); o["r"] = expr(x->getRHS());
        } else if (auto x = dyn_cast<ConditionalOperator>(E)) {
            o["e"] = "cond"; o["c"] = expr(x->getCond()); o["a"] = expr(x->getTrueExpr()); o["b"] = expr(x->getFalseExpr());
        } else if (auto x = dyn_cast<ArraySubscriptExpr>(E)) {
            o["e"] = "idx"; o["b"] = expr(x->getBase()); o["i"] = expr(x->getIdx());
        } else if (auto x = dyn_cast<InitListExpr>(E)) {
            o["e"] = "init";
            auto y = x->isSemanticForm() ? x : (x->getSemanticForm() ? x->getSemanticForm() : x);
            json::Array a;
            for (unsigned i = 0; i < y->getNumInits(); i++) a.push_back(expr(y->getInit(i)));
            o["x"] = std::move(a);
            if (auto R = y->getType()->getAsCXXRecordDecl()) {
                json::Array f;
                for (auto F : R->fields()) f.push_back(fieldName(F));
                o["fs"] = std::move(f);
                if (y->isTransparent()) o["transparent"] = true;
            }
        } else if (isa<ImplicitValueInitExpr>(E) || isa<CXXScalarValueInitExpr>(E)) {
            o["e"] = "zero";
        } else if (auto x = dyn_cast<CXXThrowExpr>(E)) {
            o["e"] = "throw"; o["x"] = exprOrNull(x->getSubExpr());
        } else if (auto x = dyn_cast<LambdaExpr>(E)) {
            o["e"] = "lambda";
            auto CO = x->getCallOperator();
            o["key"] = fnKey(CO);
            json::Array caps;
            auto ci = x->capture_init_begin();
            for (auto &c : x->captures()) {
                json::Object co;
                if (c.capturesThis()) co["this"] = true;
                else if (c.capturesVariable()) {
                    auto V = c.getCapturedVar();
                    co["id"] = declId(cast<ValueDecl>(V)); co["n"] = V->getNameAsString();
                    co["byref"] = c.getCaptureKind() == LCK_ByRef;
                    if (cast<VarDecl>(V)->isInitCapture()) co["init"] = exprOrNull(*ci);
                }
                caps.push_back(std::move(co));
                ++ci;
            }
            o["caps"] = std::move(caps);
            o["fd"] = fn(CO);
            if (!CO->isDependentContext() && !x->isGenericLambda()) {
                json::Array ps;
                for (auto p : CO->parameters()) ps.push_back(json::Object{{"id", declId(p)}, {"n", p->getNameAsString()}, {"t", type(p->getType())}});
                o["ps"] = std::move(ps);
                o["ret"] = type(CO->getReturnType());
                o["body"] = stmt(CO->getBody());
            } else {
                // generic lambda: emit its instantiations
                json::Array insts;
                if (auto T = CO->getDescribedFunctionTemplate())
                    for (auto S : T->specializations()) {
                        if (!S->getBody()) continue;
                        json::Object io;
                        io["key"] = fnKey(S);
                        json::Array ps;
                        for (auto p : S->parameters()) ps.push_back(json::Object{{"id", declId(p)}, {"n", p->getNameAsString()}, {"t", type(p->getType())}});
                        io["ps"] = std::move(ps);
                        io["ret"] = type(S->getReturnType());
                        io["body"] = stmt(S->getBody());
                        insts.push_back(std::move(io));
                    }
                o["insts"] = std::move(insts);
            }
        } else if (auto x = dyn_cast<CXXTypeidExpr>(E)) {
            o["e"] = "typeid";
            if (!x->isTypeOperand()) o["x"] = expr(x->getExprOperand());
        } else if (isa<CXXPseudoDestructorExpr>(E)) {
            o["e"] = "nop";
        } else if (auto x = dyn_cast<CXXNoexceptExpr>(E)) {
            o["e"] = "bool"; o["v"] = x->getValue();
        } else if (isa<SourceLocExpr>(E)) {
            o["e"] = "int"; o["v"] = "0";
        } else
            return unsupported(E);
        return std::move(o);
    }
    json::Object var(const VarDecl *V)
    {
        json::Object v;
        v["id"] = declId(V); v["n"] = V->getNameAsString(); v["t"] = type(V->getType());
        if (V->isStaticLocal()) { v["static"] = true; v["gkey"] = globKey(V); emitGlobal(V); }
        else if (V->getInit()) v["init"] = expr(V->getInit());
        v["ln"] = line(V->getLocation());
        return v;
    }
    json::Value stmt(const Stmt *S)
    {
        json::Object o;
        if (!S) return nullptr;
        if (auto E = dyn_cast<Expr>(S)) { o["s"] = "expr"; o["x"] = expr(E); return std::move(o); }
        o["ln"] = line(S->getBeginLoc());
        if (auto x = dyn_cast<CompoundStmt>(S)) {
            o["s"] = "block"; json::Array a;
            for (auto y : x->body()) a.push_back(stmt(y));
            o["b"] = std::move(a);
        } else if (auto x = dyn_cast<DeclStmt>(S)) {
            o["s"] = "decl"; json::Array a;
            for (auto d : x->decls()) {
                if (auto V = dyn_cast<VarDecl>(d)) a.push_back(var(V));
            }
            o["v"] = std::move(a);
        } else if (auto x = dyn_cast<IfStmt>(S)) {
            o["s"] = "if";
            if (x->getInit()) o["init"] = stmt(x->getInit());
            if (x->getConditionVariable()) o["cv"] = var(x->getConditionVariable());
            o["c"] = expr(x->getCond()); o["th"] = stmt(x->getThen()); o["el"] = stmt(x->getElse());
        } else if (auto x = dyn_cast<WhileStmt>(S)) {
            o["s"] = "while";
            if (x->getConditionVariable()) o["cv"] = var(x->getConditionVariable());
            o["c"] = expr(x->getCond()); o["b"] = stmt(x->getBody());
        } else if (auto x = dyn_cast<DoStmt>(S)) {
            o["s"] = "do"; o["c"] = expr(x->getCond()); o["b"] = stmt(x->getBody());
        } else if (auto x = dyn_cast<ForStmt>(S)) {
            o["s"] = "for"; o["i"] = stmt(x->getInit()); o["c"] = exprOrNull(x->getCond());
            o["inc"] = exprOrNull(x->getInc()); o["b"] = stmt(x->getBody());
        } else if (auto x = dyn_cast<CXXForRangeStmt>(S)) {
            o["s"] = "rfor"; 
            o["r"] = expr(x->getRangeInit());
            o["v"] = var(x->getLoopVariable());
            o["b"] = stmt(x->getBody());
        } else if (auto x = dyn_cast<ReturnStmt>(S)) {
            o["s"] = "ret"; o["x"] = exprOrNull(x->getRetValue());
        } else if (isa<BreakStmt>(S)) o["s"] = "break";
        else if (isa<ContinueStmt>(S)) o["s"] = "continue";
        else if (isa<NullStmt>(S)) o["s"] = "null";
        else if (auto x = dyn_cast<SwitchStmt>(S)) {
            o["s"] = "switch"; o["c"] = expr(x->getCond()); o["b"] = stmt(x->getBody());
            if (x->getInit()) o["init"] = stmt(x->getInit());
        } else if (auto x = dyn_cast<CaseStmt>(S)) {
            o["s"] = "case";
            Expr::EvalResult R;
            x->getLHS()->EvaluateAsInt(R, C);
            o["v"] = llvm::toString(R.Val.getInt(), 10); o["b"] = stmt(x->getSubStmt());
        } else if (auto x = dyn_cast<DefaultStmt>(S)) {
            o["s"] = "default"; o["b"] = stmt(x->getSubStmt());
        } else if (auto x = dyn_cast<CXXTryStmt>(S)) {
            o["s"] = "try"; o["b"] = stmt(x->getTryBlock());
            json::Array hs;
            for (unsigned i = 0; i < x->getNumHandlers(); i++) {
                auto h = x->getHandler(i);
                json::Object ho;
                if (h->getExceptionDecl()) ho["v"] = var(h->getExceptionDecl());
                ho["b"] = stmt(h->getHandlerBlock());
                hs.push_back(std::move(ho));
            }
            o["h"] = std::move(hs);
        } else if (auto x = dyn_cast<AttributedStmt>(S)) return stmt(x->getSubStmt());
        else { o["s"] = "unsup"; o["c"] = S->getStmtClassName(); }
        return std::move(o);
    }
    void function(const FunctionDecl *F)
    {
        if (!F->doesThisDeclarationHaveABody()) return;
        if (F->isDependentContext()) return;
        if (auto M = dyn_cast<CXXMethodDecl>(F)) if (M->getParent()->isLambda()) return;
        if (!inRoot(F->getLocation())) return;
        const Stmt *B = F->getBody();
        if (!B) return;
        json::Object o;
        o["fd"] = fn(F);
        o["file"] = file(F->getLocation());
        o["line"] = line(F->getLocation());
        o["endline"] = line(F->getEndLoc());
        json::Array ps;
        for (auto p : F->parameters()) ps.push_back(json::Object{{"id", declId(p)}, {"n", p->getNameAsString()}, {"t", type(p->getType())}});
        o["ps"] = std::move(ps);
        o["body"] = stmt(B);
        if (auto CD = dyn_cast<CXXConstructorDecl>(F)) {
            json::Array ins;
            for (auto I : CD->inits()) {
                json::Object io;
                if (I->isAnyMemberInitializer()) { 
                    auto fd = I->getAnyMember();
                    io["f"] = fieldName(fd); io["ft"] = type(fd->getType()); }
                else if (I->isBaseInitializer()) io["base"] = type(QualType(I->getBaseClass(), 0));
                else io["deleg"] = true;
                if (I->getInit()) io["x"] = expr(I->getInit());
                ins.push_back(std::move(io));
            }
            o["inits"] = std::move(ins);
        }
        functions.push_back(std::move(o));
    }
    void record(const CXXRecordDecl *R)
    {
        json::Object o;
        o["n"] = R->getQualifiedNameAsString();
        o["q"] = recName(R);
        json::Array b, f, m;
        for (auto &x : R->bases()) b.push_back(type(x.getType()));
        for (auto x : R->fields()) {
            f.push_back(json::Object{{"n", fieldName(x)}, {"t", type(x->getType())}, {"mut", x->isMutable()}});
        }
        for (auto x : R->methods()) m.push_back(fn(x));
        o["b"] = std::move(b); o["f"] = std::move(f); o["m"] = std::move(m);
        o["abs"] = R->isAbstract();
        o["union"] = R->isUnion();
        o["file"] = file(R->getLocation());
        o["trivdtor"] = R->hasTrivialDestructor();
        records.push_back(std::move(o));
    }
    void finish(llvm::raw_ostream &os)
    {
        for (size_t i = 0; i < recQueue.size(); i++) record(recQueue[i]);
        os << json::Value(json::Object{{"types", std::move(types)}, {"fns", std::move(fns)}, {"functions", std::move(functions)},
            {"records", std::move(records)}, {"globals", std::move(globals)}});
    }
};

struct Visitor : RecursiveASTVisitor<Visitor> {
    Dumper &D;
    Visitor(Dumper &D) : D(D) {}
    bool shouldVisitTemplateInstantiations() const { return true; }
    bool shouldVisitImplicitCode() const { return true; }
    bool VisitFunctionDecl(FunctionDecl *F) { D.function(F); return true; }
    bool VisitCXXRecordDecl(CXXRecordDecl *R) { D.queueRec(R); return true; }
};

static std::string gOut;
struct Consumer : ASTConsumer {
    void HandleTranslationUnit(ASTContext &C) override
    {
        if (C.getDiagnostics().hasErrorOccurred()) return;
        Dumper D(C);
        Visitor V(D);
        V.TraverseDecl(C.getTranslationUnitDecl());
        std::error_code ec;
        llvm::raw_fd_ostream os(gOut, ec);
        D.finish(os);
    }
};
struct Action : ASTFrontendAction {
    std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, StringRef) override { return std::make_unique<Consumer>(); }
};
int main(int argc, char **argv)
{
    // dump ROOT OUT SOURCE -- flags
    if (argc < 5) return 2;
    gRoot = argv[1]; gOut = argv[2];
    std::string src = argv[3];
    std::vector<std::string> flags;
    for (int i = 5; i < argc; i++) flags.push_back(argv[i]);
    tooling::FixedCompilationDatabase db(".", flags);
    tooling::ClangTool tool(db, {src});
    return tool.run(tooling::newFrontendActionFactory<Action>().get());
}
