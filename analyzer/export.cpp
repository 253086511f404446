// Exporter: dumps the resolved program (functions incl. template instances,
// classes, enums, file-scope variables) of the analysed repository as JSON.
// usage: export OUT.json ROOT_PREFIX[:ROOT_PREFIX...] file.cpp -- flags
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/ASTTypeTraits.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/Mangle.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendActions.h"
#include "clang/Lex/Lexer.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <fstream>
#include <map>
#include <set>

using namespace clang;
namespace J = llvm::json;

static std::string OutPath;
static std::vector<std::string> Roots;

namespace {
class Exporter : public RecursiveASTVisitor<Exporter> {
  public:
    ASTContext &Ctx;
    SourceManager &SM;
    ASTNameGenerator NG;
    PrintingPolicy PP;
    J::Object Funcs, Classes, Enums, Globals, Typedefs;
    J::Array Types;
    std::map<const void *, int> TypeIds, VarIds;
    std::set<const Decl *> SeenF;

    explicit Exporter(ASTContext &C) : Ctx(C), SM(C.getSourceManager()), NG(C), PP(C.getPrintingPolicy()) {
        PP.SuppressTagKeyword = true;
        PP.FullyQualifiedName = true;
    }
    bool shouldVisitTemplateInstantiations() const { return true; }
    bool shouldVisitImplicitCode() const { return true; }

    // ---------------------------------------------------------- locations
    std::string fileOf(SourceLocation L) {
        L = SM.getExpansionLoc(L);
        auto FE = SM.getFileEntryRefForID(SM.getFileID(L));
        if (!FE) return "";
        return FE->getFileEntry().tryGetRealPathName().str();
    }
    // where the code of a declaration is written (an explicit instantiation is located at the request for it)
    static SourceLocation home(const Decl *D) {
        if (auto *S = dyn_cast<ClassTemplateSpecializationDecl>(D))
            if (S->getSpecializationKind() != TSK_ExplicitSpecialization)
                if (auto *P = S->getTemplateInstantiationPattern()) return P->getLocation();
        return D->getLocation();
    }
    bool inRepo(SourceLocation L) {
        std::string F = fileOf(L);
        for (auto &R : Roots)
            if (F.compare(0, R.size(), R) == 0) return true;
        return false;
    }
    int line(SourceLocation L) { return (int)SM.getExpansionLineNumber(L); }

    // ---------------------------------------------------------- names
    static std::string plainQ(const NamedDecl *D) {
        std::string S = D->getDeclName().isIdentifier() ? D->getName().str() : D->getNameAsString();
        if (auto *FD = dyn_cast<CXXConversionDecl>(D)) S = "operator conv";
        const DeclContext *C = D->getDeclContext();
        while (C) {
            if (auto *N = dyn_cast<NamespaceDecl>(C)) {
                if (!N->isInline() && !N->isAnonymousNamespace()) S = N->getNameAsString() + "::" + S;
            } else if (auto *R = dyn_cast<RecordDecl>(C)) {
                S = R->getNameAsString() + "::" + S;
            } else if (auto *F = dyn_cast<FunctionDecl>(C)) {
                S = plainQ(F) + "()::" + S;
                return S;
            } else if (auto *E = dyn_cast<EnumDecl>(C)) {
                if (E->isScoped()) S = E->getNameAsString() + "::" + S;
            }
            C = C->getParent();
        }
        return S;
    }
    std::string classKey(const CXXRecordDecl *R) {
        if (!R) return "";
        QualType T = Ctx.getTypeDeclType(R);
        return T.getCanonicalType().getAsString(PP);
    }
    std::string fid(const FunctionDecl *F) {
        F = F->getCanonicalDecl();
        std::string S;
        if (isa<CXXConstructorDecl>(F) || isa<CXXDestructorDecl>(F)) {
            auto V = NG.getAllManglings(F);
            if (!V.empty()) S = V[0];
        } else S = NG.getName(F);
        if (S.empty() || S[0] != '_') {
            S = plainQ(F) + "@" + std::to_string((uintptr_t)F);
        }
        return S;
    }
    int varId(const ValueDecl *V) {
        const void *P = V->getCanonicalDecl();
        auto It = VarIds.find(P);
        if (It != VarIds.end()) return It->second;
        int N = (int)VarIds.size() + 1;
        VarIds[P] = N;
        return N;
    }

    // ---------------------------------------------------------- types
    bool eigenDims(const CXXRecordDecl *R, int &Rows, int &Cols, QualType &Sc) {
        if (!R) return false;
        std::vector<const CXXRecordDecl *> W{R};
        std::set<const CXXRecordDecl *> S;
        bool Found = false;
        while (!W.empty()) {
            auto *X = W.back();
            W.pop_back();
            if (!X || !X->hasDefinition() || !S.insert(X).second) continue;
            X = X->getDefinition();
            std::string N = plainQ(X);
            if (N == "Eigen::DenseBase" || N == "Eigen::EigenBase" || N == "Eigen::DiagonalBase") {
                if (N == "Eigen::DenseBase") {
                    for (auto *D : X->decls())
                        if (auto *E = dyn_cast<EnumDecl>(D))
                            for (auto *EC : E->enumerators()) {
                                if (EC->getName() == "RowsAtCompileTime") { Rows = (int)EC->getInitVal().getExtValue(); Found = true; }
                                if (EC->getName() == "ColsAtCompileTime") Cols = (int)EC->getInitVal().getExtValue();
                            }
                    for (auto *D : X->decls())
                        if (auto *T = dyn_cast<TypedefNameDecl>(D))
                            if (T->getName() == "Scalar") Sc = T->getUnderlyingType();
                } else if (!Found) { Rows = Cols = -1; Found = true; }
            }
            for (auto &B : X->bases())
                W.push_back(B.getType()->getAsCXXRecordDecl());
        }
        return Found;
    }
    int typeId(QualType T) {
        if (T.isNull()) return -1;
        T = T.getCanonicalType();
        auto It = TypeIds.find(T.getAsOpaquePtr());
        if (It != TypeIds.end()) return It->second;
        int N = (int)Types.size();
        TypeIds[T.getAsOpaquePtr()] = N;
        Types.push_back(nullptr);
        J::Object O;
        std::string S = T.getAsString(PP);
        if (S.size() > 400) S = S.substr(0, 400);
        O["s"] = S;
        if (T.isConstQualified()) O["const"] = true;
        if (T.isVolatileQualified()) O["volatile"] = true;
        QualType U = T.getUnqualifiedType();
        if (U->isReferenceType()) {
            O["k"] = U->isRValueReferenceType() ? "rref" : "ref";
            O["to"] = typeId(U->getPointeeType());
        } else if (U->isPointerType()) {
            O["k"] = "ptr";
            O["to"] = typeId(U->getPointeeType());
        } else if (U->isBooleanType()) O["k"] = "bool";
        else if (auto *E = U->getAs<EnumType>()) {
            O["k"] = "enum";
            O["q"] = plainQ(E->getDecl());
        } else if (U->isIntegerType()) {
            O["k"] = "int";
            O["u"] = U->isUnsignedIntegerType();
            if (!U->isDependentType()) O["w"] = (int)Ctx.getTypeSize(U);
        } else if (U->isRealFloatingType()) {
            O["k"] = "float";
            if (!U->isDependentType()) O["w"] = (int)Ctx.getTypeSize(U);
        } else if (U->isVoidType()) O["k"] = "void";
        else if (auto *R = U->getAsCXXRecordDecl()) {
            O["k"] = "rec";
            O["q"] = plainQ(R);
            if (R->isLambda()) O["lambda"] = true;
            O["key"] = S;
            int Rows = 0, Cols = 0;
            QualType Sc;
            if (eigenDims(R, Rows, Cols, Sc)) {
                O["rows"] = Rows;
                O["cols"] = Cols;
                if (!Sc.isNull()) O["scalar"] = typeId(Sc);
            }
            if (auto *TS = dyn_cast<ClassTemplateSpecializationDecl>(R)) {
                J::Array A;
                auto add = [&](const TemplateArgument &X) {
                    if (X.getKind() == TemplateArgument::Type) A.push_back(J::Object{{"t", typeId(X.getAsType())}});
                    else if (X.getKind() == TemplateArgument::Integral) A.push_back(J::Object{{"v", (int64_t)X.getAsIntegral().getExtValue()}});
                    else A.push_back(nullptr);
                };
                for (auto &X : TS->getTemplateArgs().asArray()) {
                    if (X.getKind() == TemplateArgument::Pack) for (auto &Y : X.pack_elements()) add(Y);
                    else add(X);
                }
                O["args"] = std::move(A);
            }
        } else if (auto *AT = Ctx.getAsArrayType(U)) {
            O["k"] = "arr";
            O["to"] = typeId(AT->getElementType());
            if (auto *CA = dyn_cast<ConstantArrayType>(AT)) O["n"] = (int64_t)CA->getSize().getZExtValue();
        } else O["k"] = "other";
        Types[N] = std::move(O);
        return N;
    }

    // ---------------------------------------------------------- expressions
    J::Value opaque(const Stmt *S) {
        J::Object O{{"k", "opaque"}, {"c", S ? S->getStmtClassName() : "null"}};
        if (S) {
            J::Array A;
            for (auto *C : S->children()) if (C) A.push_back(stmt(C));
            O["ch"] = std::move(A);
            O["l"] = line(S->getBeginLoc());
        }
        return O;
    }
    J::Array exprs(llvm::ArrayRef<const Expr *> V) {
        J::Array A;
        for (auto *E : V) A.push_back(expr(E));
        return A;
    }
    template <class C> J::Array argsOf(const C *E, unsigned From = 0) {
        J::Array A;
        for (unsigned i = From; i < E->getNumArgs(); ++i) {
            const Expr *X = E->getArg(i);
            if (isa<CXXDefaultArgExpr>(X)) {
                J::Value V = expr(X);
                if (auto *O = V.getAsObject()) (*O)["dflt"] = true;
                A.push_back(std::move(V));
            } else A.push_back(expr(X));
        }
        return A;
    }
    void calleeInfo(J::Object &O, const FunctionDecl *F) {
        if (!F) return;
        O["q"] = plainQ(F);
        noteFunction(F);
        bool Repo = inRepo(F->getLocation());
        if (Repo) {
            O["f"] = fid(F);
            O["repo"] = true;
        }
        if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
            if (M->isVirtual()) O["virt"] = true;
            if (M->isConst()) O["cm"] = true;
            if (M->isStatic()) O["static"] = true;
            O["cls"] = classKey(M->getParent());
        }
        if (!Repo) {
            J::Array A;
            if (auto *TA = F->getTemplateSpecializationArgs())
                for (auto &X : TA->asArray()) {
                    if (X.getKind() == TemplateArgument::Integral) A.push_back((int64_t)X.getAsIntegral().getExtValue());
                    else if (X.getKind() == TemplateArgument::Type) A.push_back(J::Object{{"t", typeId(X.getAsType())}});
                    else A.push_back(nullptr);
                }
            if (!A.empty()) O["targs"] = std::move(A);
            J::Array PR;
            for (auto *P : F->parameters()) {
                QualType T = P->getType();
                bool MutRef = (T->isLValueReferenceType() || T->isPointerType()) && !T->getPointeeType().isConstQualified();
                PR.push_back(MutRef ? 1 : 0);
            }
            O["pm"] = std::move(PR);
        }
    }
    J::Value expr(const Expr *E) {
        if (!E) return nullptr;
        // transparent wrappers
        if (auto *X = dyn_cast<ParenExpr>(E)) return expr(X->getSubExpr());
        if (auto *X = dyn_cast<ExprWithCleanups>(E)) return expr(X->getSubExpr());
        if (auto *X = dyn_cast<MaterializeTemporaryExpr>(E)) return expr(X->getSubExpr());
        if (auto *X = dyn_cast<CXXBindTemporaryExpr>(E)) return expr(X->getSubExpr());
        if (auto *X = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) return expr(X->getReplacement());
        if (auto *X = dyn_cast<ConstantExpr>(E)) return expr(X->getSubExpr());
        if (auto *X = dyn_cast<CXXDefaultArgExpr>(E)) return expr(X->getExpr());
        if (auto *X = dyn_cast<CXXDefaultInitExpr>(E)) return expr(X->getExpr());
        if (auto *X = dyn_cast<CXXStdInitializerListExpr>(E)) return expr(X->getSubExpr());
        if (auto *X = dyn_cast<OpaqueValueExpr>(E)) if (X->getSourceExpr()) return expr(X->getSourceExpr());
        if (auto *X = dyn_cast<CXXRewrittenBinaryOperator>(E)) return expr(X->getSemanticForm());
        if (auto *X = dyn_cast<ArrayInitLoopExpr>(E)) return expr(X->getCommonExpr());

        J::Object O;
        O["t"] = typeId(E->getType());
        O["l"] = line(E->getBeginLoc());
        if (auto *C = dyn_cast<CastExpr>(E)) {
            switch (C->getCastKind()) {
            case CK_NoOp: case CK_LValueToRValue: case CK_FunctionToPointerDecay:
            case CK_BuiltinFnToFnPtr: case CK_ConstructorConversion: case CK_UserDefinedConversion:
            case CK_ArrayToPointerDecay:
                return expr(C->getSubExpr());
            case CK_DerivedToBase: case CK_UncheckedDerivedToBase: case CK_BaseToDerived:
            case CK_Dynamic:
                O["k"] = "cast"; O["ck"] = C->getCastKindName(); O["e"] = expr(C->getSubExpr());
                return O;
            default:
                O["k"] = "cast"; O["ck"] = C->getCastKindName(); O["e"] = expr(C->getSubExpr());
                if (isa<ImplicitCastExpr>(C)) O["imp"] = true;
                return O;
            }
        }
        if (auto *X = dyn_cast<IntegerLiteral>(E)) {
            O["k"] = "int"; llvm::SmallString<32> S; X->getValue().toString(S, 10, X->getType()->isSignedIntegerType()); O["v"] = S.str().str(); return O;
        }
        if (auto *X = dyn_cast<CharacterLiteral>(E)) { O["k"] = "int"; O["v"] = std::to_string(X->getValue()); return O; }
        if (auto *X = dyn_cast<FloatingLiteral>(E)) {
            O["k"] = "float";
            SourceLocation B = SM.getSpellingLoc(X->getBeginLoc());
            std::string S = Lexer::getSourceText(CharSourceRange::getTokenRange(B, B), SM, Ctx.getLangOpts()).str();
            llvm::SmallString<40> D; X->getValue().toString(D, 17, 0);
            O["src"] = S; O["v"] = D.str().str();
            return O;
        }
        if (auto *X = dyn_cast<CXXBoolLiteralExpr>(E)) { O["k"] = "bool"; O["v"] = X->getValue(); return O; }
        if (auto *X = dyn_cast<StringLiteral>(E)) { O["k"] = "str"; O["v"] = X->getCharByteWidth() == 1 ? X->getString().str() : std::string("?"); return O; }
        if (isa<PredefinedExpr>(E)) { O["k"] = "str"; O["v"] = "<func>"; return O; }
        if (isa<CXXThisExpr>(E)) { O["k"] = "this"; return O; }
        if (isa<CXXNullPtrLiteralExpr>(E) || isa<GNUNullExpr>(E)) { O["k"] = "null"; return O; }
        if (auto *X = dyn_cast<DeclRefExpr>(E)) {
            const ValueDecl *D = X->getDecl();
            O["n"] = D->getNameAsString();
            if (auto *EC = dyn_cast<EnumConstantDecl>(D)) {
                O["k"] = "enumc"; O["q"] = plainQ(EC); O["v"] = (int64_t)EC->getInitVal().getExtValue();
                if (auto *ED = dyn_cast<EnumDecl>(EC->getDeclContext())) { O["en"] = plainQ(ED); noteEnum(ED); }
                return O;
            }
            if (auto *FD = dyn_cast<FunctionDecl>(D)) { O["k"] = "func"; calleeInfo(O, FD); return O; }
            O["k"] = "var"; O["d"] = varId(D);
            if (auto *V = dyn_cast<VarDecl>(D)) {
                if (V->hasGlobalStorage()) { O["g"] = plainQ(V); noteGlobal(V); if (X->isNonOdrUse() == NOUR_None && inRepo(V->getLocation())) O["odr"] = true; }
            } else O["g"] = plainQ(D);
            return O;
        }
        if (auto *X = dyn_cast<MemberExpr>(E)) {
            const ValueDecl *D = X->getMemberDecl();
            if (auto *F = dyn_cast<FieldDecl>(D)) {
                O["k"] = "mem"; O["f"] = F->getNameAsString();
                O["arrow"] = X->isArrow();
                O["b"] = expr(X->getBase());
                O["c"] = classKey(dyn_cast<CXXRecordDecl>(F->getParent()));
                O["q"] = plainQ(F);
                return O;
            }
            if (auto *V = dyn_cast<VarDecl>(D)) { O["k"] = "var"; O["n"] = V->getNameAsString(); O["d"] = varId(V); O["g"] = plainQ(V); noteGlobal(V); return O; }
            if (auto *EC = dyn_cast<EnumConstantDecl>(D)) {
                O["k"] = "enumc"; O["q"] = plainQ(EC); O["v"] = (int64_t)EC->getInitVal().getExtValue();
                if (auto *ED = dyn_cast<EnumDecl>(EC->getDeclContext())) { O["en"] = plainQ(ED); noteEnum(ED); }
                return O;
            }
            if (auto *FD = dyn_cast<FunctionDecl>(D)) { O["k"] = "func"; calleeInfo(O, FD); O["b"] = expr(X->getBase()); return O; }
            return opaque(E);
        }
        if (auto *X = dyn_cast<CXXMemberCallExpr>(E)) {
            O["k"] = "call";
            const FunctionDecl *F = X->getDirectCallee();
            if (!F) { O["fn"] = expr(X->getCallee()); O["args"] = argsOf(X); return O; }
            calleeInfo(O, F);
            const Expr *Obj = X->getImplicitObjectArgument();
            O["obj"] = expr(Obj);
            if (auto *ME = dyn_cast<MemberExpr>(X->getCallee()->IgnoreParens())) {
                O["arrow"] = ME->isArrow();
                if (ME->hasQualifier()) O["qual"] = true;
            }
            O["args"] = argsOf(X);
            return O;
        }
        if (auto *X = dyn_cast<CXXOperatorCallExpr>(E)) {
            O["k"] = "call";
            const FunctionDecl *F = X->getDirectCallee();
            O["op"] = getOperatorSpelling(X->getOperator());
            if (F) calleeInfo(O, F);
            if (F && isa<CXXMethodDecl>(F) && !cast<CXXMethodDecl>(F)->isStatic()) {
                O["obj"] = expr(X->getArg(0));
                O["args"] = argsOf(X, 1);
            } else O["args"] = argsOf(X);
            return O;
        }
        if (auto *X = dyn_cast<CallExpr>(E)) {
            O["k"] = "call";
            if (const FunctionDecl *F = X->getDirectCallee()) calleeInfo(O, F);
            else O["fn"] = expr(X->getCallee());
            O["args"] = argsOf(X);
            return O;
        }
        if (auto *X = dyn_cast<CXXConstructExpr>(E)) {
            O["k"] = "ctor";
            calleeInfo(O, X->getConstructor());
            auto *CD = X->getConstructor();
            if (CD->isCopyConstructor()) O["copy"] = true;
            if (CD->isMoveConstructor()) O["copy"] = true;
            if (CD->isDefaultConstructor()) O["def"] = true;
            O["args"] = argsOf(X);
            return O;
        }
        if (auto *X = dyn_cast<CXXInheritedCtorInitExpr>(E)) {
            O["k"] = "ctor"; calleeInfo(O, X->getConstructor()); O["inh"] = true; O["args"] = J::Array(); return O;
        }
        if (auto *X = dyn_cast<BinaryOperator>(E)) {
            O["k"] = "bin"; O["op"] = X->getOpcodeStr().str();
            O["a"] = expr(X->getLHS()); O["b"] = expr(X->getRHS());
            return O;
        }
        if (auto *X = dyn_cast<UnaryOperator>(E)) {
            O["k"] = "un"; O["op"] = UnaryOperator::getOpcodeStr(X->getOpcode()).str();
            O["post"] = X->isPostfix();
            O["e"] = expr(X->getSubExpr());
            return O;
        }
        if (auto *X = dyn_cast<ConditionalOperator>(E)) {
            O["k"] = "cond"; O["c"] = expr(X->getCond()); O["a"] = expr(X->getTrueExpr()); O["b"] = expr(X->getFalseExpr());
            return O;
        }
        if (auto *X = dyn_cast<ArraySubscriptExpr>(E)) {
            O["k"] = "idx"; O["b"] = expr(X->getBase()); O["i"] = expr(X->getIdx());
            return O;
        }
        if (auto *X = dyn_cast<InitListExpr>(E)) {
            O["k"] = "ilist"; J::Array A;
            const InitListExpr *S = X->isSemanticForm() ? X : X->getSemanticForm();
            if (!S) S = X;
            for (auto *I : S->inits()) A.push_back(expr(I));
            O["e"] = std::move(A);
            return O;
        }
        if (isa<ImplicitValueInitExpr>(E) || isa<CXXScalarValueInitExpr>(E)) { O["k"] = "zero"; return O; }
        if (auto *X = dyn_cast<CXXNewExpr>(E)) {
            O["k"] = "new"; O["et"] = typeId(X->getAllocatedType());
            if (X->isArray()) O["n"] = expr(X->getArraySize().value_or(nullptr));
            if (X->getInitializer()) O["init"] = expr(X->getInitializer());
            return O;
        }
        if (auto *X = dyn_cast<CXXDeleteExpr>(E)) { O["k"] = "delete"; O["arr"] = X->isArrayForm(); O["e"] = expr(X->getArgument()); return O; }
        if (auto *X = dyn_cast<CXXThrowExpr>(E)) { O["k"] = "throw"; if (X->getSubExpr()) O["e"] = expr(X->getSubExpr()); return O; }
        if (auto *X = dyn_cast<LambdaExpr>(E)) {
            O["k"] = "lambda";
            auto *OpD = X->getCallOperator();
            noteFunction(OpD);
            O["f"] = fid(OpD);
            J::Array A;
            for (auto &C : X->captures()) {
                if (C.capturesVariable()) A.push_back(J::Object{{"d", varId(C.getCapturedVar())}, {"ref", C.getCaptureKind() == LCK_ByRef}});
                else if (C.capturesThis()) A.push_back(J::Object{{"this", true}});
            }
            O["caps"] = std::move(A);
            return O;
        }
        if (auto *X = dyn_cast<UnaryExprOrTypeTraitExpr>(E)) {
            Expr::EvalResult R;
            if (!X->isValueDependent() && X->EvaluateAsInt(R, Ctx)) { O["k"] = "int"; llvm::SmallString<32> S; R.Val.getInt().toString(S, 10); O["v"] = S.str().str(); return O; }
        }
        if (isa<CXXTypeidExpr>(E)) { O["k"] = "typeid"; return O; }
        return opaque(E);
    }

    // ---------------------------------------------------------- statements
    J::Value declJ(const VarDecl *V) {
        J::Object O{{"k", "decl"}, {"n", V->getNameAsString()}, {"d", varId(V)}, {"t", typeId(V->getType())}, {"l", line(V->getBeginLoc())}};
        if (V->isStaticLocal()) O["static"] = true;
        if (V->hasInit()) {
            O["init"] = expr(V->getInit());
            O["style"] = V->getInitStyle() == VarDecl::CInit ? "c" : V->getInitStyle() == VarDecl::CallInit ? "call" : "list";
        }
        return O;
    }
    J::Value stmt(const Stmt *S) {
        if (!S) return nullptr;
        if (auto *E = dyn_cast<Expr>(S)) return expr(E);
        J::Object O;
        O["l"] = line(S->getBeginLoc());
        if (auto *X = dyn_cast<CompoundStmt>(S)) {
            O["k"] = "block"; J::Array A;
            for (auto *C : X->body()) A.push_back(stmt(C));
            O["s"] = std::move(A);
            return O;
        }
        if (auto *X = dyn_cast<DeclStmt>(S)) {
            O["k"] = "block"; O["flat"] = true; J::Array A;
            for (auto *D : X->decls()) {
                if (auto *V = dyn_cast<VarDecl>(D)) A.push_back(declJ(V));
            }
            O["s"] = std::move(A);
            return O;
        }
        if (auto *X = dyn_cast<IfStmt>(S)) {
            O["k"] = "if";
            if (X->getInit()) O["init"] = stmt(X->getInit());
            if (X->getConditionVariable()) O["cv"] = declJ(X->getConditionVariable());
            O["c"] = expr(X->getCond());
            O["a"] = stmt(X->getThen()); O["b"] = stmt(X->getElse());
            return O;
        }
        if (auto *X = dyn_cast<ForStmt>(S)) {
            O["k"] = "for"; O["init"] = stmt(X->getInit()); O["c"] = expr(X->getCond()); O["inc"] = expr(X->getInc()); O["body"] = stmt(X->getBody());
            return O;
        }
        if (auto *X = dyn_cast<WhileStmt>(S)) {
            O["k"] = "while"; O["c"] = expr(X->getCond()); O["body"] = stmt(X->getBody());
            if (X->getConditionVariable()) O["cv"] = declJ(X->getConditionVariable());
            return O;
        }
        if (auto *X = dyn_cast<DoStmt>(S)) { O["k"] = "do"; O["c"] = expr(X->getCond()); O["body"] = stmt(X->getBody()); return O; }
        if (auto *X = dyn_cast<CXXForRangeStmt>(S)) {
            O["k"] = "forrange"; O["var"] = declJ(X->getLoopVariable()); O["range"] = expr(X->getRangeInit()); O["body"] = stmt(X->getBody());
            return O;
        }
        if (auto *X = dyn_cast<ReturnStmt>(S)) { O["k"] = "return"; O["e"] = expr(X->getRetValue()); return O; }
        if (isa<BreakStmt>(S)) { O["k"] = "break"; return O; }
        if (isa<ContinueStmt>(S)) { O["k"] = "continue"; return O; }
        if (isa<NullStmt>(S)) { O["k"] = "null_s"; return O; }
        if (auto *X = dyn_cast<SwitchStmt>(S)) {
            O["k"] = "switch"; O["c"] = expr(X->getCond());
            if (X->getInit()) O["init"] = stmt(X->getInit());
            O["body"] = stmt(X->getBody());
            return O;
        }
        if (auto *X = dyn_cast<CaseStmt>(S)) { O["k"] = "case"; O["e"] = expr(X->getLHS()); O["s"] = stmt(X->getSubStmt()); return O; }
        if (auto *X = dyn_cast<DefaultStmt>(S)) { O["k"] = "default"; O["s"] = stmt(X->getSubStmt()); return O; }
        if (auto *X = dyn_cast<CXXTryStmt>(S)) {
            O["k"] = "try"; O["body"] = stmt(X->getTryBlock()); J::Array A;
            for (unsigned i = 0; i < X->getNumHandlers(); ++i) {
                auto *H = X->getHandler(i);
                J::Object C{{"body", stmt(H->getHandlerBlock())}};
                if (H->getExceptionDecl()) { C["d"] = varId(H->getExceptionDecl()); C["t"] = typeId(H->getExceptionDecl()->getType()); }
                A.push_back(std::move(C));
            }
            O["h"] = std::move(A);
            return O;
        }
        if (auto *X = dyn_cast<AttributedStmt>(S)) return stmt(X->getSubStmt());
        return opaque(S);
    }

    // ---------------------------------------------------------- declarations
    void noteEnum(const EnumDecl *E) {
        std::string Q = plainQ(E);
        if (Enums.find(Q) != Enums.end()) return;
        J::Array A;
        for (auto *C : E->enumerators()) A.push_back(J::Object{{"n", C->getNameAsString()}, {"q", plainQ(C)}, {"v", (int64_t)C->getInitVal().getExtValue()}});
        Enums[Q] = J::Object{{"c", std::move(A)}, {"file", fileOf(E->getLocation())}, {"l", line(E->getLocation())}};
    }
    void noteGlobal(const VarDecl *V) {
        std::string Q = plainQ(V);
        if (Globals.find(Q) != Globals.end()) return;
        Globals[Q] = nullptr;
        J::Object O{{"t", typeId(V->getType())}, {"repo", inRepo(V->getLocation())}, {"const", V->getType().isConstQualified()}, {"d", varId(V)},
                    {"file", fileOf(V->getLocation())}, {"l", line(V->getLocation())},{"member", V->isStaticDataMember()}, {"local", V->isStaticLocal()}};
        O["def"] = V->hasDefinition() != VarDecl::DeclarationOnly;
        O["ext"] = V->isExternallyVisible();
        O["inline"] = V->isInline();
        O["tinst"] = V->getTemplateSpecializationKind() != TSK_Undeclared;
        if (const VarDecl *DD = V->getDefinition()) { O["defrepo"] = inRepo(DD->getLocation()); O["deffile"] = fileOf(DD->getLocation()); O["defl"] = line(DD->getLocation()); }
        const VarDecl *Def = nullptr;
        if (const Expr *I = V->getAnyInitializer(Def)) {
            if (inRepo(V->getLocation())) O["init"] = expr(I);
            else if (!I->isValueDependent()) {
                Expr::EvalResult R;
                if (V->getType().isConstQualified() && I->EvaluateAsRValue(R, Ctx) && R.Val.isInt()) {
                    llvm::SmallString<32> S; R.Val.getInt().toString(S, 10);
                    O["cv"] = S.str().str();
                }
            }
        }
        Globals[Q] = std::move(O);
    }
    void noteFunction(const FunctionDecl *F) {
        if (!F) return;
        if (!inRepo(F->getLocation())) return;
        if (F->isDependentContext()) return;
        dumpFunction(F);
    }
    void dumpFunction(const FunctionDecl *F) {
        const FunctionDecl *Def = nullptr;
        F->isDefined(Def);
        const FunctionDecl *D = Def ? Def : F;
        if (!SeenF.insert(F->getCanonicalDecl()).second) {
            return;
        }
        J::Object O;
        std::string Id = fid(F);
        O["q"] = plainQ(F);
        O["n"] = F->getDeclName().isIdentifier() ? F->getName().str() : F->getNameAsString();
        O["file"] = fileOf(D->getLocation());
        O["l"] = line(D->getLocation());
        O["ret"] = typeId(F->getReturnType());
        if (F->isInlined() || D->isInlined()) O["inline"] = true;
        if (F->isTemplateInstantiation()) O["tinst"] = true;
        if (F->isImplicit()) O["implicit"] = true;
        if (F->isDefaulted()) O["defaulted"] = true;
        if (F->isDeleted()) O["deleted"] = true;
        if (D->isOutOfLine()) O["ool"] = true;
        O["linkage"] = F->isExternallyVisible() ? "ext" : "int";
        if (F->getStorageClass() == SC_Static) O["staticsc"] = true;
        O["access"] = (int)F->getAccess();
        if (auto *TA = F->getTemplateSpecializationArgs()) {
            J::Array A;
            for (auto &X : TA->asArray()) {
                if (X.getKind() == TemplateArgument::Type) A.push_back(J::Object{{"t", typeId(X.getAsType())}});
                else if (X.getKind() == TemplateArgument::Integral) A.push_back((int64_t)X.getAsIntegral().getExtValue());
                else A.push_back(nullptr);
            }
            O["targs"] = std::move(A);
        }
        if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
            O["cls"] = classKey(M->getParent());
            O["clsq"] = plainQ(M->getParent());
            noteClass(M->getParent());
            if (M->isVirtual()) O["virt"] = true;
            if (M->isPureVirtual()) O["pure"] = true;
            if (M->isConst()) O["const"] = true;
            if (M->isStatic()) O["static"] = true;
            J::Array Ov;
            for (auto *X : M->overridden_methods()) Ov.push_back(fid(X));
            if (!Ov.empty()) O["ov"] = std::move(Ov);
            if (isa<CXXConstructorDecl>(M)) O["ctor"] = true;
            if (isa<CXXDestructorDecl>(M)) O["dtor"] = true;
        }
        J::Array P;
        for (auto *V : D->parameters()) {
            J::Object Q{{"n", V->getNameAsString()}, {"d", varId(V)}, {"t", typeId(V->getType())}};
            if (V->hasDefaultArg() && !V->hasUnparsedDefaultArg() && !V->hasUninstantiatedDefaultArg() && V->getDefaultArg())
                Q["def"] = expr(V->getDefaultArg());
            P.push_back(std::move(Q));
        }
        O["params"] = std::move(P);
        if (auto *C = dyn_cast<CXXConstructorDecl>(D)) {
            J::Array I;
            if (Def)
                for (auto *X : C->inits()) {
                    J::Object U;
                    if (X->isAnyMemberInitializer()) U["field"] = X->getAnyMember()->getNameAsString();
                    else if (X->isBaseInitializer()) U["base"] = typeId(QualType(X->getBaseClass(), 0));
                    else U["deleg"] = true;
                    U["written"] = X->isWritten();
                    U["e"] = expr(X->getInit());
                    I.push_back(std::move(U));
                }
            O["inits"] = std::move(I);
        }
        if (Def && Def->getBody() && !Def->isDependentContext()) O["body"] = stmt(Def->getBody());
        Funcs[Id] = std::move(O);
    }
    std::set<std::string> SeenC;
    void noteClass(const CXXRecordDecl *R) {
        if (!R || !R->hasDefinition()) return;
        R = R->getDefinition();
        if (!inRepo(home(R)) || R->isDependentContext()) return;
        std::string K = classKey(R);
        if (!SeenC.insert(K).second) return;
        J::Object O;
        O["q"] = plainQ(R);
        O["file"] = fileOf(home(R));
        O["l"] = line(home(R));
        O["abstract"] = R->isAbstract();
        if (R->isLambda()) O["lambda"] = true;
        O["poly"] = R->isPolymorphic();
        J::Array B;
        for (auto &X : R->bases()) {
            J::Object U{{"t", typeId(X.getType())}, {"virt", X.isVirtual()}, {"access", (int)X.getAccessSpecifier()}};
            if (auto *BR = X.getType()->getAsCXXRecordDecl()) { U["key"] = classKey(BR); U["q"] = plainQ(BR); noteClass(BR); }
            B.push_back(std::move(U));
        }
        O["bases"] = std::move(B);
        J::Array F;
        for (auto *X : R->fields()) {
            J::Object U{{"n", X->getNameAsString()}, {"t", typeId(X->getType())}, {"access", (int)X->getAccess()}, {"l", line(X->getLocation())}};
            if (X->hasInClassInitializer() && X->getInClassInitializer()) U["init"] = expr(X->getInClassInitializer());
            if (X->isMutable()) U["mutable"] = true;
            F.push_back(std::move(U));
        }
        O["fields"] = std::move(F);
        J::Array M;
        for (auto *X : R->methods()) { M.push_back(fid(X)); noteFunction(X); }
        O["methods"] = std::move(M);
        bool CopyC = false, CopyA = false, Dt = false;
        for (auto *C : R->ctors()) if (C->isCopyConstructor() && (C->isDeleted() || C->getAccess() != AS_public || !C->isImplicit())) CopyC = true;
        for (auto *X : R->methods()) if (X->isCopyAssignmentOperator() && (X->isDeleted() || X->getAccess() != AS_public || !X->isImplicit())) CopyA = true;
        if (auto *D = R->getDestructor()) Dt = D->isUserProvided();
        O["custom_copy"] = CopyC; O["custom_assign"] = CopyA; O["user_dtor"] = Dt;
        Classes[K] = std::move(O);
    }

    // declarations outside the repository are reached only through references
    bool TraverseDecl(Decl *D) {
        if (D && !isa<TranslationUnitDecl>(D) && D->getDeclContext()->isFileContext() && home(D).isValid() && !inRepo(home(D))) return true;
        return RecursiveASTVisitor<Exporter>::TraverseDecl(D);
    }
    bool VisitFunctionDecl(FunctionDecl *F) {
        if (!F->isDependentContext()) noteFunction(F);
        return true;
    }
    bool VisitCXXRecordDecl(CXXRecordDecl *R) {
        noteClass(R);
        return true;
    }
    bool VisitEnumDecl(EnumDecl *E) {
        if (inRepo(E->getLocation()) && !E->isDependentContext()) noteEnum(E);
        return true;
    }
    bool VisitTypedefNameDecl(TypedefNameDecl *D) {
        if (D->getDeclContext()->isFileContext() && inRepo(D->getLocation()) && !D->getUnderlyingType()->isDependentType())
            Typedefs[D->getQualifiedNameAsString()] = J::Object{{"t", typeId(D->getUnderlyingType())}, {"l", line(D->getLocation())}};
        return true;
    }
    bool VisitVarDecl(VarDecl *V) {
        if (V->hasGlobalStorage() && inRepo(V->getLocation()) && !V->getDeclContext()->isDependentContext() && !V->getType()->isDependentType()) noteGlobal(V);
        return true;
    }
};

class Consumer : public ASTConsumer {
  public:
    void HandleTranslationUnit(ASTContext &C) override {
        if (C.getDiagnostics().hasErrorOccurred()) return;
        Exporter E(C);
        E.TraverseDecl(C.getTranslationUnitDecl());
        J::Object O;
        O["functions"] = std::move(E.Funcs);
        O["classes"] = std::move(E.Classes);
        O["enums"] = std::move(E.Enums);
        O["globals"] = std::move(E.Globals);
        O["typedefs"] = std::move(E.Typedefs);
        O["types"] = std::move(E.Types);
        std::error_code EC;
        llvm::raw_fd_ostream OS(OutPath, EC);
        OS << J::Value(std::move(O));
    }
};
class Action : public ASTFrontendAction {
  public:
    std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, StringRef) override { return std::make_unique<Consumer>(); }
};
} // namespace

int main(int argc, const char **argv) {
    if (argc < 4) return 2;
    OutPath = argv[1];
    std::string R = argv[2], Cur;
    for (char c : R + ":") { if (c == ':') { if (!Cur.empty()) Roots.push_back(Cur); Cur.clear(); } else Cur += c; }
    std::string File = argv[3];
    std::vector<std::string> Args;
    for (int i = 5; i < argc; ++i) Args.push_back(argv[i]);
    tooling::FixedCompilationDatabase DB(".", Args);
    tooling::ClangTool T(DB, {File});
    return T.run(tooling::newFrontendActionFactory<Action>().get());
}
