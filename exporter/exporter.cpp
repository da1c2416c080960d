// Parses one translation unit and writes the resolved program (functions, classes, globals defined under the
// given roots) as JSON. Usage: exporter --root DIR [--root DIR] --out FILE file.cpp -- <clang flags>
#include <fstream>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <vector>

#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/ParentMapContext.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Index/USRGeneration.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"

using namespace clang;
namespace json = llvm::json;
using json::Array;
using json::Object;
using json::Value;

static std::vector<std::string> Roots;
static std::string OutFile;

namespace {

int64_t i64(const llvm::APSInt &V) { return (int64_t)(V.isSigned() ? V.getSExtValue() : V.getZExtValue()); }

struct Exporter {
  ASTContext &C;
  SourceManager &SM;
  PrintingPolicy PP;
  std::map<const Decl *, int> Ids;
  std::map<std::string, int> TypeIds;
  Array Types;
  std::map<std::string, bool> Done;
  Array Functions, Classes, Globals, Enums;
  std::map<std::string, int> Unsupported;

  explicit Exporter(ASTContext &C) : C(C), SM(C.getSourceManager()), PP(C.getLangOpts()) {
    PP.SuppressTagKeyword = true;
    PP.Bool = true;
    PP.PrintCanonicalTypes = true;
    PP.SuppressUnwrittenScope = false;
  }

  std::string usr(const Decl *D) {
    llvm::SmallString<128> Buf;
    if (index::generateUSRForDecl(D, Buf)) return "";
    return std::string(Buf.str());
  }
  std::string fileOf(SourceLocation L) {
    L = SM.getExpansionLoc(L);
    auto F = SM.getFilename(L);
    return F.str();
  }
  int lineOf(SourceLocation L) { return (int)SM.getExpansionLineNumber(L); }
  bool inRoots(const Decl *D) {
    SourceLocation L = D->getLocation();
    if (L.isInvalid()) return false;
    std::string F = fileOf(L);
    for (auto &R : Roots)
      if (F.rfind(R, 0) == 0) return true;
    return false;
  }
  int id(const Decl *D) {
    D = D->getCanonicalDecl();
    auto It = Ids.find(D);
    if (It != Ids.end()) return It->second;
    int N = (int)Ids.size() + 1;
    Ids[D] = N;
    return N;
  }
  // name of a class without template arguments and inline namespaces
  std::string clsName(const RecordDecl *RD) {
    if (!RD) return "";
    if (auto *CR = dyn_cast<CXXRecordDecl>(RD))
      if (CR->isLambda()) return "<lambda>";
    std::string S;
    llvm::raw_string_ostream OS(S);
    PrintingPolicy P2 = PP;
    P2.SuppressInlineNamespace = true;
    std::string N = RD->getNameAsString();
    const DeclContext *DC = RD->getDeclContext();
    std::string Pref;
    while (DC && !DC->isTranslationUnit()) {
      if (auto *NS = dyn_cast<NamespaceDecl>(DC)) {
        if (!NS->isInline() && !NS->isAnonymousNamespace())
          Pref = NS->getNameAsString() + "::" + Pref;
        // drop versioned ICU namespaces and the simdjson implementation namespaces
      } else if (auto *R2 = dyn_cast<RecordDecl>(DC)) {
        Pref = R2->getNameAsString() + "::" + Pref;
      }
      DC = DC->getParent();
    }
    return Pref + N;
  }
  std::string qualName(const NamedDecl *ND) {
    std::string Pref;
    const DeclContext *DC = ND->getDeclContext();
    while (DC && !DC->isTranslationUnit()) {
      if (auto *NS = dyn_cast<NamespaceDecl>(DC)) {
        if (!NS->isInline() && !NS->isAnonymousNamespace())
          Pref = NS->getNameAsString() + "::" + Pref;
      } else if (auto *R2 = dyn_cast<RecordDecl>(DC)) {
        Pref = R2->getNameAsString() + "::" + Pref;
      }
      DC = DC->getParent();
    }
    return Pref + ND->getNameAsString();
  }

  int type(QualType T) {
    if (T.isNull()) return -1;
    QualType Canon = T.getCanonicalType();
    std::string S = Canon.getAsString(PP);
    auto It = TypeIds.find(S);
    if (It != TypeIds.end()) return It->second;
    int N = (int)Types.size();
    TypeIds[S] = N;
    Types.push_back(nullptr);
    Object O;
    O["s"] = S;
    QualType U = Canon;
    bool Ref = false, RRef = false;
    if (U->isRValueReferenceType()) RRef = true;
    if (U->isReferenceType()) { Ref = true; U = U->getPointeeType(); }
    if (Ref) O["ref"] = RRef ? 2 : 1;
    if (U.isConstQualified()) O["const"] = true;
    U = U.getUnqualifiedType();
    if (U->isDependentType()) { O["k"] = "dep"; }
    else if (U->isBooleanType()) { O["k"] = "bool"; }
    else if (U->isEnumeralType()) { O["k"] = "enum"; O["cls"] = qualName(U->castAs<EnumType>()->getDecl());
      if (auto *ED = U->castAs<EnumType>()->getDecl()) if (!ED->getIntegerType().isNull()) { O["w"] = (int)C.getTypeSize(U); O["u"] = ED->getIntegerType()->isUnsignedIntegerType(); } }
    else if (U->isIntegerType()) { O["k"] = "int"; O["w"] = (int)C.getTypeSize(U); O["u"] = U->isUnsignedIntegerType(); }
    else if (U->isFloatingType()) { O["k"] = "float"; }
    else if (U->isPointerType()) { O["k"] = "ptr"; O["to"] = type(U->getPointeeType()); if (U->getPointeeType().isConstQualified()) O["pconst"] = true; }
    else if (U->isVoidType()) { O["k"] = "void"; }
    else if (U->isNullPtrType()) { O["k"] = "nullptr"; }
    else if (U->isArrayType()) { O["k"] = "array"; O["to"] = type(C.getAsArrayType(U)->getElementType());
      if (auto *CA = C.getAsConstantArrayType(U)) O["n"] = (int64_t)CA->getSize().getZExtValue(); }
    else if (auto *RD = U->getAsCXXRecordDecl()) {
      O["k"] = "rec"; O["cls"] = clsName(RD); O["usr"] = usr(RD);
      if (auto *CT = dyn_cast<ClassTemplateSpecializationDecl>(RD)) {
        Array A;
        for (auto &Arg : CT->getTemplateArgs().asArray()) {
          if (Arg.getKind() == TemplateArgument::Type) A.push_back(type(Arg.getAsType()));
          else A.push_back(-1);
        }
        O["args"] = std::move(A);
      }
    } else { O["k"] = "other"; }
    Types[N] = std::move(O);
    return N;
  }

  Value unsupported(const Stmt *S) {
    std::string K = S ? S->getStmtClassName() : "null";
    Unsupported[K]++;
    Object O;
    O["k"] = "Unsup";
    O["c"] = K;
    if (S) O["l"] = lineOf(S->getBeginLoc());
    Array Kids;
    if (S)
      for (auto *Ch : S->children())
        if (Ch && isa<Expr>(Ch)) Kids.push_back(expr(cast<Expr>(Ch)));
    O["kids"] = std::move(Kids);
    return O;
  }

  Object node(const char *K, const Expr *E) {
    Object O;
    O["k"] = K;
    O["t"] = type(E->getType());
    O["l"] = lineOf(E->getExprLoc());
    return O;
  }

  void calleeInfo(Object &O, const FunctionDecl *FD) {
    O["n"] = FD->getNameAsString();
    O["fn"] = qualName(FD);
    O["usr"] = usr(FD);
    if (auto *P = FD->getTemplateInstantiationPattern()) O["pat"] = usr(P);
    if (inRoots(FD)) O["repo"] = true;
    if (auto *MD = dyn_cast<CXXMethodDecl>(FD)) {
      O["cls"] = clsName(MD->getParent());
      if (MD->isConst()) O["mconst"] = true;
      if (MD->isStatic()) O["mstatic"] = true;
      if (MD->getParent()->isLambda()) O["lambda"] = true;
    }
    // which parameters are (const) references/pointers: r = const ref, m = mutable ref, p = pointer to non-const,
    // c = pointer to const, v = value
    std::string Modes;
    for (auto *P : FD->parameters()) {
      QualType T = P->getType().getCanonicalType();
      if (T->isReferenceType())
        Modes += T->getPointeeType().isConstQualified() ? 'r' : (T->isRValueReferenceType() ? 'x' : 'm');
      else if (T->isPointerType())
        Modes += T->getPointeeType().isConstQualified() ? 'c' : 'p';
      else
        Modes += 'v';
    }
    O["modes"] = Modes;
    if (FD->isNoReturn()) O["noreturn"] = true;
    if (FD->getType()->getAs<FunctionProtoType>() && FD->getType()->getAs<FunctionProtoType>()->isNothrow()) O["noexcept"] = true;
    O["rt"] = type(FD->getReturnType());
  }

  Array args(const Expr *const *A, unsigned N) {
    Array R;
    for (unsigned i = 0; i < N; i++) R.push_back(expr(A[i]));
    return R;
  }

  Value expr(const Expr *E) {
    if (!E) return nullptr;
    if (auto *P = dyn_cast<ParenExpr>(E)) return expr(P->getSubExpr());
    if (auto *P = dyn_cast<ConstantExpr>(E)) return expr(P->getSubExpr());
    if (auto *P = dyn_cast<ExprWithCleanups>(E)) return expr(P->getSubExpr());
    if (auto *P = dyn_cast<MaterializeTemporaryExpr>(E)) return expr(P->getSubExpr());
    if (auto *P = dyn_cast<CXXBindTemporaryExpr>(E)) return expr(P->getSubExpr());
    if (auto *P = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) return expr(P->getReplacement());
    if (auto *P = dyn_cast<CXXDefaultArgExpr>(E)) {
      Value V = expr(P->getExpr());
      if (auto *O = V.getAsObject()) (*O)["defarg"] = true;
      return V;
    }
    if (auto *P = dyn_cast<CXXDefaultInitExpr>(E)) return expr(P->getExpr());
    if (auto *P = dyn_cast<OpaqueValueExpr>(E)) return expr(P->getSourceExpr());
    if (auto *P = dyn_cast<CXXStdInitializerListExpr>(E)) {
      Object O = node("StdInit", E);
      O["a"] = expr(P->getSubExpr());
      return O;
    }
    if (auto *CE = dyn_cast<CastExpr>(E)) {
      const Expr *Sub = CE->getSubExpr();
      switch (CE->getCastKind()) {
        case CK_IntegralCast: case CK_IntegralToBoolean: case CK_PointerToBoolean: case CK_IntegralToFloating:
        case CK_FloatingToIntegral: case CK_FloatingCast: case CK_FloatingToBoolean: case CK_BooleanToSignedIntegral:
        case CK_BitCast: case CK_IntegralToPointer: case CK_PointerToIntegral: case CK_LValueBitCast:
        case CK_Dynamic: case CK_BaseToDerived: {
          Object O = node("Cast", E);
          O["ck"] = CE->getCastKindName();
          O["a"] = expr(Sub);
          O["st"] = type(Sub->getType());
          if (isa<ExplicitCastExpr>(CE)) O["explicit"] = true;
          return O;
        }
        case CK_NullToPointer: {
          Object O = node("Null", E);
          return O;
        }
        default: {
          if (isa<CXXConstCastExpr>(CE)) {
            Object O = node("Cast", E);
            O["ck"] = "Const";
            O["a"] = expr(Sub);
            O["st"] = type(Sub->getType());
            O["explicit"] = true;
            return O;
          }
          return expr(Sub);
        }
      }
    }
    if (auto *L = dyn_cast<IntegerLiteral>(E)) {
      Object O = node("Int", E);
      llvm::SmallString<32> S;
      L->getValue().toString(S, 10, L->getType()->isSignedIntegerType());
      if (L->getValue().getActiveBits() <= 62) O["v"] = (int64_t)L->getValue().getZExtValue();
      else O["v"] = std::string(S.str());
      return O;
    }
    if (auto *L = dyn_cast<CharacterLiteral>(E)) {
      Object O = node("Int", E);
      O["v"] = (int64_t)(int32_t)L->getValue();
      O["ch"] = true;
      return O;
    }
    if (auto *L = dyn_cast<CXXBoolLiteralExpr>(E)) {
      Object O = node("Bool", E);
      O["v"] = L->getValue();
      return O;
    }
    if (auto *L = dyn_cast<FloatingLiteral>(E)) {
      Object O = node("Flt", E);
      O["v"] = L->getValueAsApproximateDouble();
      return O;
    }
    if (auto *L = dyn_cast<StringLiteral>(E)) {
      Object O = node("Str", E);
      Array A;
      for (unsigned i = 0; i < L->getLength(); i++) A.push_back((int64_t)L->getCodeUnit(i));
      O["v"] = std::move(A);
      O["w"] = (int)L->getCharByteWidth();
      return O;
    }
    if (isa<CXXNullPtrLiteralExpr>(E) || isa<GNUNullExpr>(E)) return node("Null", E);
    if (isa<CXXThisExpr>(E)) return node("This", E);
    if (auto *D = dyn_cast<DeclRefExpr>(E)) return declRef(D->getDecl(), E);
    if (auto *M = dyn_cast<MemberExpr>(E)) {
      auto *MD = M->getMemberDecl();
      if (auto *FD = dyn_cast<FieldDecl>(MD)) {
        Object O = node("Mem", E);
        O["b"] = expr(M->getBase());
        O["f"] = FD->getNameAsString();
        O["arrow"] = M->isArrow();
        O["cls"] = clsName(FD->getParent());
        if (FD->isMutable()) O["mut"] = true;
        return O;
      }
      if (isa<VarDecl>(MD)) return declRef(MD, E);
      Object O = node("MemFn", E);
      O["b"] = expr(M->getBase());
      O["n"] = MD->getNameAsString();
      O["usr"] = usr(MD);
      return O;
    }
    if (auto *CE = dyn_cast<CXXMemberCallExpr>(E)) {
      auto *MD = CE->getMethodDecl();
      if (!MD) {
        Object O = node("ICall", E);
        O["f"] = expr(CE->getCallee());
        O["args"] = args(CE->getArgs(), CE->getNumArgs());
        return O;
      }
      auto *ME = dyn_cast<MemberExpr>(CE->getCallee()->IgnoreParenImpCasts());
      Object O = node("MCall", E);
      calleeInfo(O, MD);
      const Expr *Obj = CE->getImplicitObjectArgument();
      O["o"] = expr(Obj);
      O["ot"] = type(Obj->getType());
      O["arrow"] = ME ? ME->isArrow() : false;
      if (MD->isVirtual() && !(ME && ME->hasQualifier())) O["virt"] = true;
      O["args"] = args(CE->getArgs(), CE->getNumArgs());
      return O;
    }
    if (auto *CE = dyn_cast<CXXOperatorCallExpr>(E)) {
      auto *FD = CE->getDirectCallee();
      if (!FD) return unsupported(E);
      if (auto *MD = dyn_cast<CXXMethodDecl>(FD)) {
        if (!MD->isStatic()) {
          Object O = node("MCall", E);
          calleeInfo(O, MD);
          O["o"] = expr(CE->getArg(0));
          O["ot"] = type(CE->getArg(0)->getType());
          O["arrow"] = false;
          Array A;
          for (unsigned i = 1; i < CE->getNumArgs(); i++) A.push_back(expr(CE->getArg(i)));
          O["args"] = std::move(A);
          O["op"] = true;
          return O;
        }
      }
      Object O = node("Call", E);
      calleeInfo(O, FD);
      O["args"] = args(CE->getArgs(), CE->getNumArgs());
      O["op"] = true;
      return O;
    }
    if (auto *CE = dyn_cast<CallExpr>(E)) {
      auto *FD = CE->getDirectCallee();
      if (!FD) {
        Object O = node("ICall", E);
        O["f"] = expr(CE->getCallee());
        O["args"] = args(CE->getArgs(), CE->getNumArgs());
        return O;
      }
      Object O = node("Call", E);
      calleeInfo(O, FD);
      O["args"] = args(CE->getArgs(), CE->getNumArgs());
      return O;
    }
    if (auto *CE = dyn_cast<CXXConstructExpr>(E)) {
      auto *CD = CE->getConstructor();
      if (CD->isCopyOrMoveConstructor() && CE->getNumArgs() >= 1) {
        Object O = node("Copy", E);
        O["a"] = expr(CE->getArg(0));
        O["move"] = CD->isMoveConstructor();
        O["cls"] = clsName(CD->getParent());
        return O;
      }
      Object O = node("Ctor", E);
      calleeInfo(O, CD);
      O["args"] = args(CE->getArgs(), CE->getNumArgs());
      O["list"] = CE->isListInitialization();
      if (CE->isStdInitListInitialization()) O["stdlist"] = true;
      if (CD->isDefaultConstructor()) O["default"] = true;
      return O;
    }
    if (auto *IE = dyn_cast<CXXInheritedCtorInitExpr>(E)) return unsupported(IE);
    if (auto *IL = dyn_cast<InitListExpr>(E)) {
      if (!IL->isSemanticForm() && IL->getSemanticForm()) IL = IL->getSemanticForm();
      Object O = node("InitList", E);
      Array A;
      for (auto *I : IL->inits()) A.push_back(expr(I));
      O["e"] = std::move(A);
      if (auto *RD = E->getType()->getAsCXXRecordDecl()) {
        Array F;
        for (auto *FD : RD->fields()) F.push_back(FD->getNameAsString());
        O["fields"] = std::move(F);
      }
      return O;
    }
    if (isa<ImplicitValueInitExpr>(E) || isa<CXXScalarValueInitExpr>(E)) return node("ValueInit", E);
    if (auto *U = dyn_cast<UnaryOperator>(E)) {
      Object O = node("Un", E);
      O["op"] = UnaryOperator::getOpcodeStr(U->getOpcode());
      if (U->isPostfix()) O["post"] = true;
      O["a"] = expr(U->getSubExpr());
      return O;
    }
    if (auto *B = dyn_cast<CompoundAssignOperator>(E)) {
      Object O = node("CAssign", E);
      std::string Op = B->getOpcodeStr().str();
      O["op"] = Op.substr(0, Op.size() - 1);
      O["a"] = expr(B->getLHS());
      O["b"] = expr(B->getRHS());
      O["ct"] = type(B->getComputationResultType());
      return O;
    }
    if (auto *B = dyn_cast<BinaryOperator>(E)) {
      Object O = node(B->getOpcode() == BO_Assign ? "Assign" : "Bin", E);
      O["op"] = B->getOpcodeStr();
      O["a"] = expr(B->getLHS());
      O["b"] = expr(B->getRHS());
      O["at"] = type(B->getLHS()->getType());
      return O;
    }
    if (auto *Q = dyn_cast<ConditionalOperator>(E)) {
      Object O = node("Cond", E);
      O["c"] = expr(Q->getCond());
      O["a"] = expr(Q->getTrueExpr());
      O["b"] = expr(Q->getFalseExpr());
      return O;
    }
    if (auto *Q = dyn_cast<BinaryConditionalOperator>(E)) {
      Object O = node("Cond", E);
      O["c"] = expr(Q->getCond());
      O["a"] = expr(Q->getTrueExpr());
      O["b"] = expr(Q->getFalseExpr());
      return O;
    }
    if (auto *A = dyn_cast<ArraySubscriptExpr>(E)) {
      Object O = node("Sub", E);
      O["a"] = expr(A->getBase());
      O["b"] = expr(A->getIdx());
      return O;
    }
    if (auto *L = dyn_cast<LambdaExpr>(E)) {
      Object O = node("Lambda", E);
      O["id"] = usr(L->getLambdaClass());
      Array Caps;
      auto InitIt = L->capture_init_begin();
      for (auto &Cap : L->captures()) {
        Object CO;
        if (Cap.capturesThis()) {
          CO["this"] = true;
          CO["copy"] = Cap.getCaptureKind() == LCK_StarThis;
        } else if (Cap.capturesVariable()) {
          CO["n"] = Cap.getCapturedVar()->getNameAsString();
          CO["id"] = id(Cap.getCapturedVar());
          CO["ref"] = Cap.getCaptureKind() == LCK_ByRef;
          if (auto *VD = dyn_cast<VarDecl>(Cap.getCapturedVar()))
            if (VD->isInitCapture()) CO["init"] = expr(VD->getInit());
        }
        Caps.push_back(std::move(CO));
        ++InitIt;
      }
      O["caps"] = std::move(Caps);
      auto *Op = L->getCallOperator();
      if (L->isGenericLambda()) {
        O["generic"] = true;
        Array Specs;
        if (auto *FT = L->getLambdaClass()->getDependentLambdaCallOperator())
          for (auto *S : FT->specializations())
            if (S->hasBody()) Specs.push_back(function(S));
        O["specs"] = std::move(Specs);
      } else {
        O["body"] = function(Op);
      }
      return O;
    }
    if (auto *N = dyn_cast<CXXNewExpr>(E)) {
      Object O = node("New", E);
      O["at"] = type(N->getAllocatedType());
      if (N->isArray()) O["array"] = true;
      if (N->getInitializer()) O["init"] = expr(N->getInitializer());
      return O;
    }
    if (auto *D = dyn_cast<CXXDeleteExpr>(E)) {
      Object O = node("Delete", E);
      O["a"] = expr(D->getArgument());
      return O;
    }
    if (auto *T = dyn_cast<CXXThrowExpr>(E)) {
      Object O = node("Throw", E);
      if (T->getSubExpr()) O["a"] = expr(T->getSubExpr());
      return O;
    }
    if (auto *S = dyn_cast<UnaryExprOrTypeTraitExpr>(E)) {
      Expr::EvalResult R;
      if (E->EvaluateAsInt(R, C)) {
        Object O = node("Int", E);
        O["v"] = (int64_t)i64(R.Val.getInt());
        return O;
      }
    }
    return unsupported(E);
  }

  Value declRef(const ValueDecl *VD, const Expr *E) {
    if (auto *EC = dyn_cast<EnumConstantDecl>(VD)) {
      Object O = node("Enum", E);
      O["n"] = EC->getNameAsString();
      O["v"] = (int64_t)EC->getInitVal().getExtValue();
      return O;
    }
    if (auto *B = dyn_cast<BindingDecl>(VD)) {
      Object O = node("Var", E);
      O["id"] = id(B);
      O["n"] = B->getNameAsString();
      return O;
    }
    if (auto *V = dyn_cast<VarDecl>(VD)) {
      if (V->hasGlobalStorage()) {
        Object O = node("GVar", E);
        O["n"] = V->getNameAsString();
        O["fn"] = qualName(V);
        O["usr"] = usr(V);
        O["id"] = id(V);
        if (inRoots(V)) O["repo"] = true;
        O["slocal"] = V->isStaticLocal();
        O["const"] = V->getType().isConstQualified();
        const VarDecl *ID = nullptr;
        const Expr *AI = V->getAnyInitializer(ID);
        if (!AI || !ID || AI->isValueDependent() || AI->isTypeDependent() || ID->getType()->isDependentType()) {
        } else if (ID->isUsableInConstantExpressions(C) || ID->isConstexpr()) {
          if (auto *Val = ID->evaluateValue())
            if (Val->isInt()) O["cv"] = (int64_t)i64(Val->getInt());
        } else if (V->getType().isConstQualified() && V->getType()->isIntegralOrEnumerationType() && V->getInit()) {
          if (auto *Val = ID->evaluateValue())
            if (Val->isInt()) O["cv"] = (int64_t)i64(Val->getInt());
        }
        return O;
      }
      Object O = node("Var", E);
      O["id"] = id(V);
      O["n"] = V->getNameAsString();
      return O;
    }
    if (auto *F = dyn_cast<FunctionDecl>(VD)) {
      Object O = node("Fn", E);
      calleeInfo(O, F);
      return O;
    }
    return unsupported(E);
  }

  Value var(const VarDecl *V) {
    Object O;
    O["id"] = id(V);
    O["n"] = V->getNameAsString();
    O["t"] = type(V->getType());
    O["l"] = lineOf(V->getLocation());
    if (V->getType()->isReferenceType()) O["ref"] = true;
    if (V->isStaticLocal()) {
      O["static"] = true;
      O["usr"] = usr(V);
      O["const"] = V->getType().isConstQualified();
    }
    if (V->getType().isConstQualified()) O["const"] = true;
    if (V->getInit()) O["init"] = expr(V->getInit());
    if (auto *DD = dyn_cast<DecompositionDecl>(V)) {
      Array B;
      for (auto *BD : DD->bindings()) {
        Object BO;
        BO["id"] = id(BD);
        BO["n"] = BD->getNameAsString();
        BO["t"] = type(BD->getType());
        if (auto *HV = BD->getHoldingVar()) {
          BO["tuple"] = true;
        } else if (auto *BE = BD->getBinding()) {
          if (auto *ME = dyn_cast<MemberExpr>(BE->IgnoreParenImpCasts())) BO["f"] = ME->getMemberDecl()->getNameAsString();
        }
        B.push_back(std::move(BO));
      }
      O["bindings"] = std::move(B);
    }
    return O;
  }

  Value stmt(const Stmt *S) {
    if (!S) return nullptr;
    Object O;
    O["l"] = lineOf(S->getBeginLoc());
    if (auto *B = dyn_cast<CompoundStmt>(S)) {
      O["k"] = "Block";
      Array A;
      for (auto *X : B->body()) A.push_back(stmt(X));
      O["s"] = std::move(A);
      O["e"] = lineOf(B->getEndLoc());
      return O;
    }
    if (auto *D = dyn_cast<DeclStmt>(S)) {
      O["k"] = "Decl";
      Array A;
      for (auto *X : D->decls())
        if (auto *V = dyn_cast<VarDecl>(X)) A.push_back(var(V));
      O["v"] = std::move(A);
      return O;
    }
    if (auto *I = dyn_cast<IfStmt>(S)) {
      O["k"] = "If";
      if (I->getInit()) O["init"] = stmt(I->getInit());
      if (I->getConditionVariable()) O["var"] = var(I->getConditionVariable());
      O["c"] = expr(I->getCond());
      O["th"] = stmt(I->getThen());
      if (I->getElse()) O["el"] = stmt(I->getElse());
      if (I->isConstexpr()) O["cx"] = true;
      return O;
    }
    if (auto *W = dyn_cast<WhileStmt>(S)) {
      O["k"] = "While";
      if (W->getConditionVariable()) O["var"] = var(W->getConditionVariable());
      O["c"] = expr(W->getCond());
      O["body"] = stmt(W->getBody());
      return O;
    }
    if (auto *W = dyn_cast<DoStmt>(S)) {
      O["k"] = "Do";
      O["c"] = expr(W->getCond());
      O["body"] = stmt(W->getBody());
      return O;
    }
    if (auto *F = dyn_cast<ForStmt>(S)) {
      O["k"] = "For";
      if (F->getInit()) O["init"] = stmt(F->getInit());
      if (F->getConditionVariable()) O["var"] = var(F->getConditionVariable());
      if (F->getCond()) O["c"] = expr(F->getCond());
      if (F->getInc()) O["inc"] = expr(F->getInc());
      O["body"] = stmt(F->getBody());
      return O;
    }
    if (auto *F = dyn_cast<CXXForRangeStmt>(S)) {
      O["k"] = "RangeFor";
      if (F->getInit()) O["init"] = stmt(F->getInit());
      O["v"] = var(F->getLoopVariable());
      O["range"] = expr(F->getRangeInit());
      O["rt"] = type(F->getRangeInit()->getType());
      O["body"] = stmt(F->getBody());
      return O;
    }
    if (auto *W = dyn_cast<SwitchStmt>(S)) {
      O["k"] = "Switch";
      if (W->getInit()) O["init"] = stmt(W->getInit());
      if (W->getConditionVariable()) O["var"] = var(W->getConditionVariable());
      O["c"] = expr(W->getCond());
      O["body"] = stmt(W->getBody());
      return O;
    }
    if (auto *W = dyn_cast<CaseStmt>(S)) {
      O["k"] = "Case";
      Expr::EvalResult R;
      if (W->getLHS()->EvaluateAsInt(R, C)) O["v"] = (int64_t)i64(R.Val.getInt());
      if (W->getRHS() && W->getRHS()->EvaluateAsInt(R, C)) O["hi"] = (int64_t)i64(R.Val.getInt());
      O["s"] = stmt(W->getSubStmt());
      return O;
    }
    if (auto *W = dyn_cast<DefaultStmt>(S)) {
      O["k"] = "Default";
      O["s"] = stmt(W->getSubStmt());
      return O;
    }
    if (auto *R = dyn_cast<ReturnStmt>(S)) {
      O["k"] = "Return";
      if (R->getRetValue()) O["a"] = expr(R->getRetValue());
      return O;
    }
    if (isa<BreakStmt>(S)) { O["k"] = "Break"; return O; }
    if (isa<ContinueStmt>(S)) { O["k"] = "Continue"; return O; }
    if (isa<NullStmt>(S)) { O["k"] = "Nop"; return O; }
    if (auto *T = dyn_cast<CXXTryStmt>(S)) {
      O["k"] = "Try";
      O["body"] = stmt(T->getTryBlock());
      Array A;
      for (unsigned i = 0; i < T->getNumHandlers(); i++) {
        auto *H = T->getHandler(i);
        Object HO;
        HO["l"] = lineOf(H->getBeginLoc());
        if (H->getExceptionDecl()) HO["var"] = var(H->getExceptionDecl());
        if (!H->getCaughtType().isNull()) HO["t"] = type(H->getCaughtType());
        HO["body"] = stmt(H->getHandlerBlock());
        A.push_back(std::move(HO));
      }
      O["h"] = std::move(A);
      return O;
    }
    if (auto *A = dyn_cast<AttributedStmt>(S)) return stmt(A->getSubStmt());
    if (auto *L = dyn_cast<LabelStmt>(S)) {
      O["k"] = "UnsupS"; O["c"] = "Label"; Unsupported["Label"]++;
      O["s"] = stmt(L->getSubStmt());
      return O;
    }
    if (auto *E = dyn_cast<Expr>(S)) {
      O["k"] = "Expr";
      O["a"] = expr(E);
      return O;
    }
    O["k"] = "UnsupS";
    O["c"] = S->getStmtClassName();
    Unsupported[S->getStmtClassName()]++;
    return O;
  }

  Value function(const FunctionDecl *FD) {
    Object O;
    O["n"] = FD->getNameAsString();
    O["qn"] = qualName(FD);
    O["usr"] = usr(FD);
    if (auto *P = FD->getTemplateInstantiationPattern()) O["pat"] = usr(P);
    O["file"] = fileOf(FD->getLocation());
    O["l"] = lineOf(FD->getLocation());
    O["e"] = lineOf(FD->getEndLoc());
    O["rt"] = type(FD->getReturnType());
    Array Ps;
    for (auto *P : FD->parameters()) {
      Object PO;
      PO["id"] = id(P);
      PO["n"] = P->getNameAsString();
      PO["t"] = type(P->getType());
      if (P->getType()->isReferenceType()) PO["ref"] = P->getType()->getPointeeType().isConstQualified() ? 1 : 2;
      Ps.push_back(std::move(PO));
    }
    O["params"] = std::move(Ps);
    if (auto *MD = dyn_cast<CXXMethodDecl>(FD)) {
      O["cls"] = clsName(MD->getParent());
      O["clsusr"] = usr(MD->getParent());
      O["const"] = MD->isConst();
      O["static"] = MD->isStatic();
      O["virt"] = MD->isVirtual();
      Array Ov;
      for (auto *X : MD->overridden_methods()) Ov.push_back(usr(X));
      O["over"] = std::move(Ov);
      O["access"] = (int)MD->getAccess();
    }
    if (FD->getFormalLinkage() == Linkage::Internal) O["internal"] = true;
    if (auto *CD = dyn_cast<CXXConstructorDecl>(FD)) {
      O["ctor"] = true;
      Array In;
      for (auto *I : CD->inits()) {
        Object IO;
        IO["l"] = lineOf(I->getSourceLocation());
        IO["written"] = I->isWritten();
        if (I->isAnyMemberInitializer()) IO["f"] = I->getAnyMember()->getNameAsString();
        else if (I->isBaseInitializer()) IO["base"] = type(QualType(I->getBaseClass(), 0));
        else IO["deleg"] = true;
        if (I->getInit()) IO["e"] = expr(I->getInit());
        In.push_back(std::move(IO));
      }
      O["inits"] = std::move(In);
    }
    if (isa<CXXDestructorDecl>(FD)) O["dtor"] = true;
    if (FD->isDefaulted()) O["defaulted"] = true;
    const FunctionDecl *Def = nullptr;
    if (FD->hasBody(Def)) O["body"] = stmt(Def->getBody());
    return O;
  }

  Value record(const CXXRecordDecl *RD) {
    Object O;
    O["n"] = RD->getNameAsString();
    O["qn"] = clsName(RD);
    O["usr"] = usr(RD);
    O["file"] = fileOf(RD->getLocation());
    O["l"] = lineOf(RD->getLocation());
    Array F;
    for (auto *D : RD->fields()) {
      Object FO;
      FO["n"] = D->getNameAsString();
      FO["t"] = type(D->getType());
      FO["mut"] = D->isMutable();
      FO["access"] = (int)D->getAccess();
      FO["l"] = lineOf(D->getLocation());
      if (D->hasInClassInitializer() && D->getInClassInitializer()) FO["init"] = expr(D->getInClassInitializer());
      F.push_back(std::move(FO));
    }
    O["fields"] = std::move(F);
    Array B;
    for (auto &X : RD->bases())
      if (auto *BR = X.getType()->getAsCXXRecordDecl()) B.push_back(usr(BR));
    O["bases"] = std::move(B);
    Array BN;
    for (auto &X : RD->bases())
      if (auto *BR = X.getType()->getAsCXXRecordDecl()) BN.push_back(clsName(BR));
    O["basenames"] = std::move(BN);
    Array M;
    for (auto *D : RD->methods()) {
      Object MO;
      MO["n"] = D->getNameAsString();
      MO["usr"] = usr(D);
      MO["virt"] = D->isVirtual();
      MO["pure"] = D->isPureVirtual();
      MO["const"] = D->isConst();
      MO["static"] = D->isStatic();
      MO["access"] = (int)D->getAccess();
      MO["implicit"] = D->isImplicit();
      Array Ov;
      for (auto *X : D->overridden_methods()) Ov.push_back(usr(X));
      MO["over"] = std::move(Ov);
      M.push_back(std::move(MO));
    }
    O["methods"] = std::move(M);
    return O;
  }
};

class Visitor : public RecursiveASTVisitor<Visitor> {
 public:
  Exporter &X;
  explicit Visitor(Exporter &X) : X(X) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return false; }
  bool TraverseDecl(Decl *D) {
    // skip whole namespaces that come from system headers
    if (D && isa<NamespaceDecl>(D) && !X.inRoots(D)) return true;
    if (D && isa<LinkageSpecDecl>(D) && !X.inRoots(D)) return true;
    return RecursiveASTVisitor::TraverseDecl(D);
  }
  bool VisitFunctionDecl(FunctionDecl *FD) {
    if (!FD->isThisDeclarationADefinition() || !X.inRoots(FD)) return true;
    if (FD->isDependentContext()) return true;
    if (auto *MD = dyn_cast<CXXMethodDecl>(FD))
      if (MD->getParent()->isLambda()) return true;
    X.Functions.push_back(X.function(FD));
    return true;
  }
  bool VisitCXXRecordDecl(CXXRecordDecl *RD) {
    if (!RD->isThisDeclarationADefinition() || !X.inRoots(RD) || RD->isLambda() || RD->isDependentContext()) return true;
    X.Classes.push_back(X.record(RD));
    return true;
  }
  bool VisitVarDecl(VarDecl *V) {
    if (!V->hasGlobalStorage() || !X.inRoots(V) || isa<ParmVarDecl>(V)) return true;
    if (V->getType()->isDependentType()) return true;
    Object O;
    O["n"] = V->getNameAsString();
    O["qn"] = X.qualName(V);
    O["usr"] = X.usr(V);
    O["file"] = X.fileOf(V->getLocation());
    O["l"] = X.lineOf(V->getLocation());
    O["t"] = X.type(V->getType());
    O["const"] = V->getType().isConstQualified();
    O["slocal"] = V->isStaticLocal();
    O["tls"] = V->getTLSKind() != VarDecl::TLS_None;
    O["def"] = V->isThisDeclarationADefinition() == VarDecl::Definition;
    if (V->getInit()) O["init"] = X.expr(V->getInit());
    X.Globals.push_back(std::move(O));
    return true;
  }
  bool VisitEnumDecl(EnumDecl *E) {
    if (!X.inRoots(E)) return true;
    Object O;
    O["n"] = X.qualName(E);
    Array A;
    for (auto *C : E->enumerators()) {
      Object CO;
      CO["n"] = C->getNameAsString();
      CO["v"] = (int64_t)C->getInitVal().getExtValue();
      A.push_back(std::move(CO));
    }
    O["e"] = std::move(A);
    X.Enums.push_back(std::move(O));
    return true;
  }
};

class Consumer : public ASTConsumer {
 public:
  void HandleTranslationUnit(ASTContext &C) override {
    if (C.getDiagnostics().hasErrorOccurred()) return;
    Exporter X(C);
    Visitor V(X);
    V.TraverseDecl(C.getTranslationUnitDecl());
    Object O;
    O["types"] = std::move(X.Types);
    O["functions"] = std::move(X.Functions);
    O["classes"] = std::move(X.Classes);
    O["globals"] = std::move(X.Globals);
    O["enums"] = std::move(X.Enums);
    Object U;
    for (auto &P : X.Unsupported) U[P.first] = P.second;
    O["unsupported"] = std::move(U);
    std::error_code EC;
    llvm::raw_fd_ostream OS(OutFile, EC);
    OS << Value(std::move(O)) << "\n";
  }
};

class Action : public ASTFrontendAction {
 public:
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, StringRef) override {
    return std::make_unique<Consumer>();
  }
};

}  // namespace

int main(int argc, char **argv) {
  std::string File;
  std::vector<std::string> Flags;
  bool InFlags = false;
  for (int i = 1; i < argc; i++) {
    std::string A = argv[i];
    if (InFlags) Flags.push_back(A);
    else if (A == "--") InFlags = true;
    else if (A == "--root" && i + 1 < argc) Roots.push_back(argv[++i]);
    else if (A == "--out" && i + 1 < argc) OutFile = argv[++i];
    else File = A;
  }
  tooling::FixedCompilationDatabase DB(".", Flags);
  tooling::ClangTool Tool(DB, {File});
  return Tool.run(tooling::newFrontendActionFactory<Action>().get());
}
