// pextract: dumps the type-checked AST of every function, record, enum and
// global that is defined below a given root as JSON lines.
//
// It executes nothing; it parses one translation unit with clang 14 (the
// compiler the repository is built with) and serialises what Sema resolved.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclCXX.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Lex/Lexer.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/FileSystem.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"

#include <map>
#include <set>
#include <string>
#include <vector>

using namespace clang;
namespace json = llvm::json;

static std::vector<std::string> Roots;
static std::vector<std::string> Excludes;
static std::string OutFile;

namespace {

class Dumper : public RecursiveASTVisitor<Dumper> {
public:
  Dumper(ASTContext &Ctx, llvm::raw_ostream &OS)
      : Ctx(Ctx), SM(Ctx.getSourceManager()), OS(OS), PP(Ctx.getPrintingPolicy()) {
    PP.SuppressTagKeyword = true;
    PP.FullyQualifiedName = true;
    PP.PrintCanonicalTypes = true;
    PP.SuppressUnwrittenScope = false;
    PP.SuppressInlineNamespace = true;
    PP.Bool = true;
  }

  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return false; }
  bool shouldVisitLambdaBody() const { return true; }

  // ---------------------------------------------------------------- helpers
  bool inRoot(SourceLocation L) {
    if (L.isInvalid())
      return false;
    L = SM.getExpansionLoc(L);
    FileID F = SM.getFileID(L);
    auto It = FileOk.find(F);
    if (It != FileOk.end())
      return It->second;
    bool Ok = false;
    std::string N = fileName(L);
    for (auto &R : Roots)
      if (llvm::StringRef(N).startswith(R))
        Ok = true;
    for (auto &R : Excludes)
      if (llvm::StringRef(N).startswith(R))
        Ok = false;
    FileOk[F] = Ok;
    return Ok;
  }
  std::string fileName(SourceLocation L) {
    L = SM.getExpansionLoc(L);
    auto *FE = SM.getFileEntryForID(SM.getFileID(L));
    if (!FE)
      return "";
    auto P = FE->tryGetRealPathName();
    return P.empty() ? FE->getName().str() : P.str();
  }
  int line(SourceLocation L) {
    return (int)SM.getExpansionLineNumber(L);
  }
  int ty(QualType T) {
    if (T.isNull())
      return -1;
    T = T.getCanonicalType();
    auto It = TyIdx.find(T.getAsOpaquePtr());
    if (It != TyIdx.end())
      return It->second;
    std::string S = T.getAsString(PP);
    int I = (int)Types.size();
    auto [It2, New] = TyStr.try_emplace(S, I);
    if (New) {
      if (S.size() > 600)
        S = S.substr(0, 600);
      Types.push_back(S);
    }
    TyIdx[T.getAsOpaquePtr()] = It2->second;
    return It2->second;
  }
  int did(const Decl *D) {
    if (!D)
      return -1;
    D = D->getCanonicalDecl();
    auto [It, New] = DeclIds.try_emplace(D, (int)DeclIds.size() + 1);
    return It->second;
  }
  std::string qn(const NamedDecl *D) {
    if (!D)
      return "";
    auto It = QNs.find(D);
    if (It != QNs.end())
      return It->second;
    std::string S;
    llvm::raw_string_ostream O(S);
    // qualified name without template arguments
    std::vector<std::string> Parts;
    for (const DeclContext *DC = D->getDeclContext(); DC;
         DC = DC->getParent()) {
      if (auto *NS = dyn_cast<NamespaceDecl>(DC)) {
        if (NS->isInline())
          continue;
        Parts.push_back(NS->isAnonymousNamespace() ? "(anon)"
                                                   : NS->getNameAsString());
      } else if (auto *RD = dyn_cast<RecordDecl>(DC)) {
        if (RD->isLambda())
          Parts.push_back("(lambda)");
        else
          Parts.push_back(RD->getNameAsString());
      } else if (auto *FD = dyn_cast<FunctionDecl>(DC)) {
        Parts.push_back(FD->getNameAsString() + "()");
      } else if (auto *ED = dyn_cast<EnumDecl>(DC)) {
        Parts.push_back(ED->getNameAsString());
      }
    }
    for (auto I = Parts.rbegin(); I != Parts.rend(); ++I)
      O << *I << "::";
    if (isa<CXXConstructorDecl>(D))
      O << "(ctor)";
    else if (isa<CXXDestructorDecl>(D))
      O << "(dtor)";
    else if (isa<CXXConversionDecl>(D))
      O << "operator "
        << cast<CXXConversionDecl>(D)->getConversionType().getCanonicalType().getAsString(PP);
    else
      O << D->getNameAsString();
    O.flush();
    QNs[D] = S;
    return S;
  }

  // ------------------------------------------------------------- callee table
  void noteFn(const FunctionDecl *FD) {
    int I = did(FD);
    if (!FnSeen.insert(I).second)
      return;
    json::Object O;
    O["k"] = "fd";
    O["id"] = I;
    O["qn"] = qn(FD);
    O["n"] = FD->getNameAsString();
    json::Array PT, PN;
    for (auto *P : FD->parameters()) {
      PT.push_back(ty(P->getType()));
      PN.push_back(P->getNameAsString());
    }
    O["pt"] = std::move(PT);
    O["pn"] = std::move(PN);
    O["rt"] = ty(FD->getReturnType());
    int Flags = 0;
    if (FD->isNoReturn() || FD->hasAttr<NoReturnAttr>() ||
        FD->hasAttr<AnalyzerNoReturnAttr>())
      Flags |= 1;
    if (auto *MD = dyn_cast<CXXMethodDecl>(FD)) {
      if (MD->isConst())
        Flags |= 2;
      if (MD->isStatic())
        Flags |= 4;
      if (MD->isVirtual())
        Flags |= 8;
      O["cls"] = qn(MD->getParent());
      O["clsT"] = ty(Ctx.getTypeDeclType(MD->getParent()));
      json::Array Ov;
      for (auto *B : MD->overridden_methods()) {
        noteFn(B);
        Ov.push_back(did(B));
      }
      if (!Ov.empty())
        O["ov"] = std::move(Ov);
      if (MD->getParent()->isLambda())
        Flags |= 16;
    }
    if (FD->isVariadic())
      Flags |= 32;
    if (FD->isDefaulted())
      Flags |= 64;
    if (FD->isImplicit())
      Flags |= 128;
    if (auto *CD = dyn_cast<CXXConstructorDecl>(FD)) {
      if (CD->isCopyConstructor())
        Flags |= 256;
      if (CD->isMoveConstructor())
        Flags |= 512;
    }
    if (FD->isPure())
      Flags |= 1024;
    if (inRoot(FD->getLocation()))
      Flags |= 2048;
    if (FD->isTemplateInstantiation())
      Flags |= 4096;
    if (!isa<CXXMethodDecl>(FD) && !FD->isExternallyVisible())
      Flags |= 8192;
    O["fl"] = Flags;
    O["file"] = fileName(FD->getLocation());
    O["line"] = line(FD->getLocation());
    if (auto *TA = FD->getTemplateSpecializationArgs()) {
      json::Array A;
      for (auto &X : TA->asArray())
        addTArg(A, X);
      O["ta"] = std::move(A);
    }
    emit(std::move(O));
  }
  void addTArg(json::Array &A, const TemplateArgument &X) {
    if (X.getKind() == TemplateArgument::Type)
      A.push_back(ty(X.getAsType()));
    else if (X.getKind() == TemplateArgument::Pack) {
      for (auto &Y : X.pack_elements())
        addTArg(A, Y);
    } else if (X.getKind() == TemplateArgument::Integral) {
      llvm::SmallString<16> S;
      X.getAsIntegral().toString(S, 10);
      A.push_back("#" + S.str().str());
    } else
      A.push_back("?");
  }

  void emit(json::Object O) {
    OS << json::Value(std::move(O)) << "\n";
  }

  // -------------------------------------------------------------- expressions
  json::Value boolOf(const Expr *E) { return ex(E); }

  json::Array args(llvm::ArrayRef<const Expr *> As) {
    json::Array R;
    for (auto *A : As)
      R.push_back(ex(A));
    return R;
  }
  template <typename C> json::Array argsOf(C *E) {
    json::Array R;
    for (const Expr *A : E->arguments())
      R.push_back(ex(A));
    return R;
  }

  json::Value intVal(const llvm::APSInt &V) {
    if (V.isSigned() ? V.getMinSignedBits() <= 64 : V.getActiveBits() <= 63)
      return json::Value((int64_t)V.getExtValue());
    llvm::SmallString<32> S;
    V.toString(S, 10);
    return json::Value(S.str().str());
  }

  json::Value varRef(const ValueDecl *VD) {
    json::Array R{"v", did(VD), VD->getNameAsString()};
    const char *K = "l";
    if (auto *V = dyn_cast<VarDecl>(VD)) {
      if (isa<ParmVarDecl>(V))
        K = "p";
      else if (V->isStaticLocal())
        K = "s";
      else if (V->hasGlobalStorage())
        K = "g";
      if (K[0] == 'g' || K[0] == 's')
        noteGlobal(V);
    }
    R.push_back(K);
    R.push_back(ty(VD->getType()));
    if (K[0] == 'g') {
      std::string N = qn(VD);
      if (auto *VT = dyn_cast<VarTemplateSpecializationDecl>(VD))
        if (inRoot(VT->getLocation())) {
          llvm::raw_string_ostream OS(N);
          printTemplateArgumentList(OS, VT->getTemplateArgs().asArray(),
                                    Ctx.getPrintingPolicy());
        }
      R.push_back(std::move(N));
    }
    return R;
  }

  void noteGlobal(const VarDecl *V) {
    const VarDecl *Def = V->getDefinition();
    if (!Def)
      Def = V;
    if (!inRoot(Def->getLocation()))
      return;
    if (!GlobSeen.insert(Def->getCanonicalDecl()).second)
      return;
    if (Def->getDeclContext()->isDependentContext() ||
        Def->getType()->isDependentType())
      return;
    PendingGlobals.push_back(Def);
  }
  void emitGlobal(const VarDecl *Def) {
    json::Object O;
    O["k"] = "gv";
    O["id"] = did(Def);
    O["qn"] = qn(Def);
    O["n"] = Def->getNameAsString();
    O["t"] = ty(Def->getType());
    O["file"] = fileName(Def->getLocation());
    O["line"] = line(Def->getLocation());
    O["static"] = Def->isStaticLocal();
    const VarDecl *ID = nullptr;
    if (auto *I = Def->getAnyInitializer(ID)) {
      if (!I->isValueDependent()) {
        O["init"] = ex(I);
        if (Def->getType()->isIntegralOrEnumerationType() &&
            (Def->isConstexpr() || Def->getType().isConstQualified())) {
          Expr::EvalResult ER;
          if (I->EvaluateAsInt(ER, Ctx))
            O["val"] = intVal(ER.Val.getInt());
        }
      }
    }
    emit(std::move(O));
  }

  json::Value ex(const Expr *E) {
    if (!E)
      return nullptr;
    // strip wrappers
    while (true) {
      if (auto *P = dyn_cast<ParenExpr>(E))
        E = P->getSubExpr();
      else if (auto *P = dyn_cast<FullExpr>(E))
        E = P->getSubExpr();
      else if (auto *P = dyn_cast<MaterializeTemporaryExpr>(E))
        E = P->getSubExpr();
      else if (auto *P = dyn_cast<CXXBindTemporaryExpr>(E))
        E = P->getSubExpr();
      else if (auto *P = dyn_cast<SubstNonTypeTemplateParmExpr>(E))
        E = P->getReplacement();
      else if (auto *P = dyn_cast<CXXDefaultArgExpr>(E))
        E = P->getExpr();
      else if (auto *P = dyn_cast<CXXDefaultInitExpr>(E))
        E = P->getExpr();
      else if (auto *P = dyn_cast<CXXStdInitializerListExpr>(E))
        E = P->getSubExpr();
      else if (auto *P = dyn_cast<UnaryOperator>(E);
               P && (P->getOpcode() == UO_Extension || P->getOpcode() == UO_Plus))
        E = P->getSubExpr();
      else
        break;
    }
    if (auto *C = dyn_cast<ImplicitCastExpr>(E)) {
      switch (C->getCastKind()) {
      case CK_PointerToBoolean:
      case CK_IntegralToBoolean:
      case CK_MemberPointerToBoolean:
      case CK_FloatingToBoolean: {
        auto *Sub = C->getSubExpr();
        return json::Array{"tobool", ex(Sub), ty(Sub->getType())};
      }
      case CK_NullToPointer:
      case CK_NullToMemberPointer:
        return json::Array{"nul"};
      case CK_IntegralCast:
      case CK_FloatingToIntegral:
      case CK_IntegralToFloating: {
        auto *Sub = C->getSubExpr();
        return json::Array{"icast", ty(C->getType()), ex(Sub),
                           ty(Sub->getType())};
      }
      default:
        return ex(C->getSubExpr());
      }
    }
    if (auto *C = dyn_cast<ExplicitCastExpr>(E)) {
      if (C->getCastKind() == CK_ConstructorConversion ||
          C->getCastKind() == CK_UserDefinedConversion)
        return ex(C->getSubExpr());
      if (C->getCastKind() == CK_ToVoid)
        return json::Array{"tovoid", ex(C->getSubExpr())};
      const char *K = isa<CXXDynamicCastExpr>(C)       ? "dynamic"
                      : isa<CXXReinterpretCastExpr>(C) ? "reinterpret"
                      : isa<CXXConstCastExpr>(C)       ? "const"
                      : isa<CStyleCastExpr>(C)         ? "c"
                                                       : "static";
      return json::Array{"cast", ty(C->getType()), ex(C->getSubExpr()),
                         ty(C->getSubExpr()->getType()), K,
                         C->isLValue() || C->isXValue()};
    }
    if (auto *L = dyn_cast<IntegerLiteral>(E)) {
      return json::Array{"i", intVal(llvm::APSInt(L->getValue(), L->getType()->isUnsignedIntegerType()))};
    }
    if (auto *L = dyn_cast<CXXBoolLiteralExpr>(E))
      return json::Array{"b", L->getValue() ? 1 : 0};
    if (auto *L = dyn_cast<CharacterLiteral>(E))
      return json::Array{"i", (int64_t)L->getValue(), "c"};
    if (auto *L = dyn_cast<clang::StringLiteral>(E)) {
      if (L->isAscii() || L->isUTF8()) {
        std::string S = L->getString().str();
        if (!json::isUTF8(S))
          S = json::fixUTF8(S);
        return json::Array{"s", S};
      }
      return json::Array{"s", "?wide"};
    }
    if (auto *L = dyn_cast<FloatingLiteral>(E))
      return json::Array{"fl", L->getValueAsApproximateDouble()};
    if (isa<CXXNullPtrLiteralExpr>(E) || isa<GNUNullExpr>(E))
      return json::Array{"nul"};
    if (isa<CXXThisExpr>(E))
      return json::Array{"this"};
    if (auto *P = dyn_cast<PredefinedExpr>(E))
      return json::Array{"s", "__func__"};
    if (auto *D = dyn_cast<DeclRefExpr>(E)) {
      auto *VD = D->getDecl();
      if (auto *EC = dyn_cast<EnumConstantDecl>(VD))
        return json::Array{"en", qn(EC), intVal(EC->getInitVal()),
                           ty(EC->getType())};
      if (auto *FD = dyn_cast<FunctionDecl>(VD)) {
        noteFn(FD);
        return json::Array{"fn", did(FD), qn(FD)};
      }
      if (auto *BD = dyn_cast<BindingDecl>(VD))
        return bindRef(BD);
      return varRef(VD);
    }
    if (auto *M = dyn_cast<MemberExpr>(E)) {
      auto *MD = M->getMemberDecl();
      if (auto *FD = dyn_cast<FieldDecl>(MD))
        return json::Array{"m", ex(M->getBase()), FD->getNameAsString(),
                           qn(FD->getParent()), ty(FD->getType()),
                           M->isArrow() ? 1 : 0, line(M->getMemberLoc())};
      if (auto *EC = dyn_cast<EnumConstantDecl>(MD))
        return json::Array{"en", qn(EC), intVal(EC->getInitVal()),
                           ty(EC->getType())};
      if (auto *V = dyn_cast<VarDecl>(MD))
        return varRef(V);
      if (auto *F = dyn_cast<FunctionDecl>(MD)) {
        noteFn(F);
        return json::Array{"fn", did(F), qn(F)};
      }
      return json::Array{"?", "member"};
    }
    if (auto *C = dyn_cast<CXXMemberCallExpr>(E)) {
      auto *MD = C->getMethodDecl();
      if (!MD) {
        return json::Array{"calli", ex(C->getCallee()), argsOf(C),
                           ty(C->getType()), line(C->getExprLoc())};
      }
      noteFn(MD);
      // lambda conversion operators and user conversions look like any call
      const Expr *Obj = C->getImplicitObjectArgument();
      bool Arrow = false, Qual = false;
      if (auto *ME = dyn_cast<MemberExpr>(C->getCallee()->IgnoreParens())) {
        Arrow = ME->isArrow();
        Qual = ME->hasQualifier();
      }
      return json::Array{"call", did(MD), qn(MD), ex(Obj), argsOf(C),
                         ty(C->getType()), line(C->getExprLoc()),
                         (Arrow ? 1 : 0) | (Qual ? 2 : 0)};
    }
    if (auto *C = dyn_cast<CXXOperatorCallExpr>(E)) {
      auto *FD = C->getDirectCallee();
      if (!FD)
        return json::Array{"?", "opcall"};
      noteFn(FD);
      if (isa<CXXMethodDecl>(FD) && !cast<CXXMethodDecl>(FD)->isStatic()) {
        json::Array As;
        for (unsigned I = 1; I < C->getNumArgs(); ++I)
          As.push_back(ex(C->getArg(I)));
        return json::Array{"call", did(FD), qn(FD), ex(C->getArg(0)),
                           std::move(As), ty(C->getType()),
                           line(C->getExprLoc()), 0};
      }
      return json::Array{"call", did(FD), qn(FD), nullptr, argsOf(C),
                         ty(C->getType()), line(C->getExprLoc()), 0};
    }
    if (auto *C = dyn_cast<CallExpr>(E)) {
      if (auto *FD = C->getDirectCallee()) {
        noteFn(FD);
        return json::Array{"call", did(FD), qn(FD), nullptr, argsOf(C),
                           ty(C->getType()), line(C->getExprLoc()), 0};
      }
      return json::Array{"calli", ex(C->getCallee()), argsOf(C),
                         ty(C->getType()), line(C->getExprLoc())};
    }
    if (auto *C = dyn_cast<CXXConstructExpr>(E)) {
      auto *CD = C->getConstructor();
      noteFn(CD);
      const char *K = "ctor";
      if (CD->isCopyConstructor())
        K = "cp";
      else if (CD->isMoveConstructor())
        K = "mv";
      return json::Array{K, did(CD), ty(C->getType()), argsOf(C),
                         line(C->getExprLoc())};
    }
    if (auto *C = dyn_cast<CXXInheritedCtorInitExpr>(E))
      return json::Array{"?", "inhctor"};
    if (auto *L = dyn_cast<LambdaExpr>(E)) {
      json::Array Caps;
      auto InitIt = L->capture_init_begin();
      for (auto &C : L->captures()) {
        const Expr *I = *InitIt++;
        if (C.capturesVariable()) {
          Caps.push_back(json::Array{did(C.getCapturedVar()),
                                     C.getCapturedVar()->getNameAsString(),
                                     C.getCaptureKind() == LCK_ByRef ? 1 : 0,
                                     ex(I)});
        } else if (C.capturesThis()) {
          Caps.push_back(json::Array{0, "this", 1, json::Array{"this"}});
        }
      }
      auto *CO = L->getCallOperator();
      json::Array Fids;
      Fids.push_back(did(CO));
      if (auto *FT = CO->getDescribedFunctionTemplate()) {
        for (auto *S : FT->specializations())
          Fids.push_back(did(S));
      }
      PendingLambdas.push_back(L);
      return json::Array{"lam", did(CO), std::move(Caps), std::move(Fids),
                         line(L->getBeginLoc()), ty(L->getType())};
    }
    if (auto *U = dyn_cast<UnaryOperator>(E))
      return json::Array{"un", UnaryOperator::getOpcodeStr(U->getOpcode()).str() + (U->isPostfix() ? "post" : ""),
                         ex(U->getSubExpr()), ty(U->getType()),
                         line(U->getOperatorLoc())};
    if (auto *B = dyn_cast<BinaryOperator>(E)) {
      std::string Op = B->getOpcodeStr().str();
      if (B->isAssignmentOp())
        return json::Array{"asg", Op, ex(B->getLHS()), ex(B->getRHS()),
                           ty(B->getType()), line(B->getOperatorLoc())};
      return json::Array{"bin", Op, ex(B->getLHS()), ex(B->getRHS()),
                         ty(B->getType()), line(B->getOperatorLoc()),
                         ty(B->getLHS()->getType())};
    }
    if (auto *C = dyn_cast<ConditionalOperator>(E))
      return json::Array{"cond", ex(C->getCond()), ex(C->getTrueExpr()),
                         ex(C->getFalseExpr()), ty(C->getType())};
    if (auto *C = dyn_cast<BinaryConditionalOperator>(E))
      return json::Array{"cond", ex(C->getCommon()), ex(C->getCommon()),
                         ex(C->getFalseExpr()), ty(C->getType())};
    if (auto *O = dyn_cast<OpaqueValueExpr>(E))
      return ex(O->getSourceExpr());
    if (auto *S = dyn_cast<ArraySubscriptExpr>(E))
      return json::Array{"sub", ex(S->getBase()), ex(S->getIdx()),
                         ty(S->getType()), line(S->getExprLoc())};
    if (auto *I = dyn_cast<InitListExpr>(E)) {
      const InitListExpr *Sem = I->isSemanticForm() ? I : I->getSemanticForm();
      if (!Sem)
        Sem = I;
      return json::Array{"il", args(const_cast<InitListExpr *>(Sem)->inits()),
                         ty(Sem->getType()), line(Sem->getBeginLoc())};
    }
    if (auto *N = dyn_cast<CXXNewExpr>(E)) {
      json::Array Pl;
      for (unsigned I = 0; I < N->getNumPlacementArgs(); ++I)
        Pl.push_back(ex(N->getPlacementArg(I)));
      return json::Array{"new", ty(N->getAllocatedType()),
                         ex(N->getInitializer()), std::move(Pl),
                         line(N->getExprLoc())};
    }
    if (auto *D = dyn_cast<CXXDeleteExpr>(E))
      return json::Array{"del", ex(D->getArgument()), line(D->getExprLoc()), ty(D->getDestroyedType())};
    if (auto *T = dyn_cast<CXXThrowExpr>(E))
      return json::Array{"throw", ex(T->getSubExpr()), line(T->getExprLoc())};
    if (auto *T = dyn_cast<CXXScalarValueInitExpr>(E))
      return json::Array{"zero", ty(T->getType())};
    if (auto *T = dyn_cast<ImplicitValueInitExpr>(E))
      return json::Array{"zero", ty(T->getType())};
    if (auto *T = dyn_cast<UnaryExprOrTypeTraitExpr>(E)) {
      Expr::EvalResult ER;
      if (!T->isValueDependent() && T->EvaluateAsInt(ER, Ctx))
        return json::Array{"i", intVal(ER.Val.getInt())};
      return json::Array{"sizeof"};
    }
    if (auto *T = dyn_cast<TypeTraitExpr>(E))
      return json::Array{"b", T->isValueDependent() ? 0 : (T->getValue() ? 1 : 0)};
    if (auto *T = dyn_cast<SizeOfPackExpr>(E))
      return json::Array{"i", T->isValueDependent() ? -1 : (int64_t)T->getPackLength()};
    if (auto *T = dyn_cast<CXXNoexceptExpr>(E))
      return json::Array{"b", T->getValue() ? 1 : 0};
    if (auto *T = dyn_cast<CXXTypeidExpr>(E)) {
      if (T->isTypeOperand())
        return json::Array{"typeid", ty(T->getTypeOperand(Ctx))};
      return json::Array{"typeid", ex(T->getExprOperand())};
    }
    if (auto *T = dyn_cast<StmtExpr>(E))
      return json::Array{"stmtexpr", st(T->getSubStmt())};
    if (auto *T = dyn_cast<CXXFoldExpr>(E))
      return json::Array{"?", "fold"};
    // last resort: kind name and children
    json::Array Ch;
    for (auto *S : E->children())
      if (auto *SE = dyn_cast_or_null<Expr>(S))
        Ch.push_back(ex(SE));
    return json::Array{"?", E->getStmtClassName(), std::move(Ch)};
  }

  json::Value bindRef(const BindingDecl *BD) {
    auto *DD = dyn_cast_or_null<DecompositionDecl>(BD->getDecomposedDecl());
    if (!DD)
      return json::Array{"?", "binding"};
    int Idx = 0, K = -1;
    for (auto *B : DD->bindings()) {
      if (B == BD || B->getCanonicalDecl() == BD->getCanonicalDecl())
        K = Idx;
      ++Idx;
    }
    std::string Field;
    if (auto *ME = dyn_cast_or_null<MemberExpr>(
            BD->getBinding() ? BD->getBinding()->IgnoreImplicit() : nullptr))
      Field = ME->getMemberDecl()->getNameAsString();
    return json::Array{"bind", varRef(DD), K, Field,
                       ty(BD->getType()), BD->getNameAsString(),
                       ty(DD->getType().getNonReferenceType())};
  }

  // --------------------------------------------------------------- statements
  json::Value declOf(const VarDecl *V) {
    json::Array Binds;
    if (auto *DD = dyn_cast<DecompositionDecl>(V)) {
      for (auto *B : DD->bindings())
        Binds.push_back(B->getNameAsString());
    }
    const Expr *I = V->getInit();
    if (V->isStaticLocal())
      noteGlobal(V);
    return json::Array{did(V), V->getNameAsString(), ty(V->getType()),
                       (I && !I->isValueDependent()) ? ex(I)
                                                     : json::Value(nullptr),
                       V->isStaticLocal() ? 1 : 0, std::move(Binds)};
  }

  void block(json::Array &Out, const Stmt *S) {
    if (!S)
      return;
    if (auto *C = dyn_cast<CompoundStmt>(S)) {
      for (auto *X : C->body())
        Out.push_back(st(X));
    } else
      Out.push_back(st(S));
  }

  void switchBody(json::Array &Out, const Stmt *S) {
    if (!S)
      return;
    if (auto *C = dyn_cast<CompoundStmt>(S)) {
      for (auto *X : C->body())
        switchBody(Out, X);
      return;
    }
    if (auto *C = dyn_cast<CaseStmt>(S)) {
      Out.push_back(json::Array{"case", line(C->getBeginLoc()), ex(C->getLHS()),
                                caseVal(C->getLHS())});
      switchBodySub(Out, C->getSubStmt());
      return;
    }
    if (auto *C = dyn_cast<DefaultStmt>(S)) {
      Out.push_back(json::Array{"default", line(C->getBeginLoc())});
      switchBodySub(Out, C->getSubStmt());
      return;
    }
    Out.push_back(st(S));
  }
  void switchBodySub(json::Array &Out, const Stmt *S) {
    if (isa<CaseStmt>(S) || isa<DefaultStmt>(S))
      switchBody(Out, S);
    else
      Out.push_back(st(S));
  }
  json::Value caseVal(const Expr *E) {
    Expr::EvalResult ER;
    if (!E->isValueDependent() && E->EvaluateAsInt(ER, Ctx))
      return intVal(ER.Val.getInt());
    return nullptr;
  }

  json::Value st(const Stmt *S) {
    if (!S)
      return nullptr;
    int L = line(S->getBeginLoc());
    if (auto *C = dyn_cast<CompoundStmt>(S)) {
      json::Array B;
      for (auto *X : C->body())
        B.push_back(st(X));
      return json::Array{"{", L, std::move(B)};
    }
    if (auto *I = dyn_cast<IfStmt>(S)) {
      if (I->isConstexpr()) {
        Expr::EvalResult ER;
        if (!I->getCond()->isValueDependent() &&
            I->getCond()->EvaluateAsInt(ER, Ctx)) {
          bool V = ER.Val.getInt() != 0;
          json::Array B;
          if (I->getInit())
            B.push_back(st(I->getInit()));
          const Stmt *T = V ? I->getThen() : I->getElse();
          if (T)
            B.push_back(st(T));
          return json::Array{"{", L, std::move(B)};
        }
      }
      json::Value CV = nullptr;
      if (auto *V = I->getConditionVariable())
        CV = declOf(V);
      return json::Array{"if", L, st(I->getInit()), std::move(CV),
                         ex(I->getCond()), st(I->getThen()), st(I->getElse())};
    }
    if (auto *F = dyn_cast<ForStmt>(S)) {
      json::Value CV = nullptr;
      if (auto *V = F->getConditionVariable())
        CV = declOf(V);
      return json::Array{"for",           L,
                         st(F->getInit()), ex(F->getCond()),
                         ex(F->getInc()),  st(F->getBody()),
                         std::move(CV)};
    }
    if (auto *W = dyn_cast<WhileStmt>(S)) {
      json::Value CV = nullptr;
      if (auto *V = W->getConditionVariable())
        CV = declOf(V);
      return json::Array{"while", L, std::move(CV), ex(W->getCond()),
                         st(W->getBody())};
    }
    if (auto *D = dyn_cast<DoStmt>(S))
      return json::Array{"do", L, st(D->getBody()), ex(D->getCond())};
    if (auto *R = dyn_cast<CXXForRangeStmt>(S)) {
      auto *V = R->getLoopVariable();
      json::Array Binds;
      if (auto *DD = dyn_cast<DecompositionDecl>(V))
        for (auto *B : DD->bindings())
          Binds.push_back(B->getNameAsString());
      return json::Array{"rfor",
                         L,
                         did(V),
                         V->getNameAsString(),
                         ty(V->getType()),
                         ex(R->getRangeInit()),
                         st(R->getBody()),
                         ty(R->getRangeInit() ? R->getRangeInit()->getType() : QualType()),
                         st(R->getInit())};
    }
    if (auto *W = dyn_cast<SwitchStmt>(S)) {
      json::Array B;
      switchBody(B, W->getBody());
      json::Value CV = nullptr;
      if (auto *V = W->getConditionVariable())
        CV = declOf(V);
      const Expr *Cond = W->getCond();
      return json::Array{"sw", L, st(W->getInit()), std::move(CV),
                         ex(Cond), std::move(B),
                         ty(Cond->IgnoreParenImpCasts()->getType())};
    }
    if (auto *R = dyn_cast<ReturnStmt>(S))
      return json::Array{"ret", L, ex(R->getRetValue())};
    if (isa<BreakStmt>(S))
      return json::Array{"brk", L};
    if (isa<ContinueStmt>(S))
      return json::Array{"cont", L};
    if (auto *D = dyn_cast<DeclStmt>(S)) {
      json::Array Ds;
      for (auto *X : D->decls())
        if (auto *V = dyn_cast<VarDecl>(X))
          Ds.push_back(declOf(V));
      return json::Array{"decl", L, std::move(Ds)};
    }
    if (auto *E = dyn_cast<Expr>(S))
      return json::Array{"e", L, ex(E)};
    if (auto *T = dyn_cast<CXXTryStmt>(S)) {
      json::Array H;
      for (unsigned I = 0; I < T->getNumHandlers(); ++I)
        H.push_back(st(T->getHandler(I)->getHandlerBlock()));
      return json::Array{"try", L, st(T->getTryBlock()), std::move(H)};
    }
    if (isa<NullStmt>(S))
      return json::Array{"{", L, json::Array{}};
    if (auto *A = dyn_cast<AttributedStmt>(S))
      return st(A->getSubStmt());
    if (auto *A = dyn_cast<LabelStmt>(S))
      return json::Array{"label", L, A->getDecl()->getNameAsString(), st(A->getSubStmt())};
    if (auto *A = dyn_cast<GotoStmt>(S))
      return json::Array{"goto", L, A->getLabel()->getNameAsString()};
    return json::Array{"?s", L, S->getStmtClassName()};
  }

  // -------------------------------------------------------------------- decls
  void dumpFn(const FunctionDecl *FD) {
    if (!FD->doesThisDeclarationHaveABody())
      return;
    if (FD->isDependentContext())
      return;
    if (!inRoot(FD->getLocation()) && !inRoot(FD->getBeginLoc()))
      return;
    if (!FnDumped.insert(did(FD)).second)
      return;
    noteFn(FD);
    json::Object O;
    O["k"] = "fn";
    O["id"] = did(FD);
    json::Array Ps;
    for (auto *P : FD->parameters())
      Ps.push_back(json::Array{did(P), P->getNameAsString(), ty(P->getType())});
    O["ps"] = std::move(Ps);
    O["file"] = fileName(FD->getLocation());
    O["line"] = line(FD->getLocation());
    O["end"] = line(FD->getEndLoc());
    if (auto *CD = dyn_cast<CXXConstructorDecl>(FD)) {
      json::Array Is;
      for (auto *I : CD->inits()) {
        std::string N;
        if (I->isAnyMemberInitializer())
          N = I->getAnyMember()->getNameAsString();
        else if (I->isBaseInitializer())
          N = "(base)";
        else
          N = "(delegating)";
        Is.push_back(json::Array{N, ex(I->getInit()),
                                 I->isBaseInitializer() && I->getBaseClass()
                                     ? ty(QualType(I->getBaseClass(), 0))
                                     : -1,
                                 I->isWritten() ? 1 : 0});
      }
      O["inits"] = std::move(Is);
    }
    O["body"] = st(FD->getBody());
    emit(std::move(O));
    drain();
  }
  void drain() {
    while (!PendingLambdas.empty() || !PendingGlobals.empty()) {
      if (!PendingLambdas.empty()) {
        auto *L = PendingLambdas.back();
        PendingLambdas.pop_back();
        dumpFn(L->getCallOperator());
        if (auto *FT = L->getCallOperator()->getDescribedFunctionTemplate())
          for (auto *S : FT->specializations())
            dumpFn(S);
        continue;
      }
      auto *G = PendingGlobals.back();
      PendingGlobals.pop_back();
      emitGlobal(G);
    }
  }

  bool VisitFunctionDecl(FunctionDecl *FD) {
    if (FD->isDefaulted() && FD->isImplicit())
      return true;
    if (inRoot(FD->getLocation()) && !FD->isDependentContext()) {
      noteFn(FD);
      dumpFn(FD);
    } else if (inRoot(FD->getLocation()) && FD->isThisDeclarationADefinition() &&
               FD->isDependentContext()) {
      bool IsTemplatePattern = true;
      if (auto *MD = dyn_cast<CXXMethodDecl>(FD))
        if (MD->getParent()->isLambda())
          IsTemplatePattern = false;
      if (IsTemplatePattern) {
        json::Object O;
        O["k"] = "pat"; // uninstantiated pattern (coverage accounting only)
        O["qn"] = qn(FD);
        O["file"] = fileName(FD->getLocation());
        O["line"] = line(FD->getLocation());
        emit(std::move(O));
      }
    }
    return true;
  }
  bool VisitCXXRecordDecl(CXXRecordDecl *RD) {
    if (!RD->isThisDeclarationADefinition() || RD->isDependentContext() ||
        !inRoot(RD->getLocation()) || RD->isLambda())
      return true;
    json::Object O;
    O["k"] = "rec";
    O["id"] = did(RD);
    O["qn"] = qn(RD);
    O["t"] = ty(Ctx.getTypeDeclType(RD));
    O["file"] = fileName(RD->getLocation());
    O["line"] = line(RD->getLocation());
    json::Array Bs, Fs, Ms;
    for (auto &B : RD->bases()) {
      auto *BR = B.getType()->getAsCXXRecordDecl();
      Bs.push_back(json::Array{BR ? qn(BR) : "", ty(B.getType())});
    }
    for (auto *F : RD->fields()) {
      json::Value I = nullptr;
      if (F->hasInClassInitializer() && F->getInClassInitializer() && !F->getInClassInitializer()->isValueDependent())
        I = ex(F->getInClassInitializer());
      Fs.push_back(json::Array{F->getNameAsString(), ty(F->getType()),
                               std::move(I), F->isMutable() ? 1 : 0,
                               line(F->getLocation())});
    }
    for (auto *M : RD->methods()) {
      if (M->isImplicit())
        continue;
      noteFn(M);
      Ms.push_back(did(M));
    }
    for (auto *D : RD->decls())
      if (auto *Fr = dyn_cast<FriendDecl>(D))
        if (auto *FF = dyn_cast_or_null<FunctionDecl>(Fr->getFriendDecl()))
          if (!FF->isDependentContext()) {
            noteFn(FF);
            Ms.push_back(did(FF));
          }
    O["bases"] = std::move(Bs);
    O["fields"] = std::move(Fs);
    O["methods"] = std::move(Ms);
    emit(std::move(O));
    drain();
    return true;
  }
  bool VisitEnumDecl(EnumDecl *ED) {
    if (!ED->isThisDeclarationADefinition() || !inRoot(ED->getLocation()) ||
        ED->isDependentContext())
      return true;
    json::Object O;
    O["k"] = "enum";
    O["qn"] = qn(ED);
    O["t"] = ty(Ctx.getTypeDeclType(ED));
    O["file"] = fileName(ED->getLocation());
    O["line"] = line(ED->getLocation());
    json::Array Cs;
    for (auto *C : ED->enumerators())
      Cs.push_back(json::Array{C->getNameAsString(), intVal(C->getInitVal())});
    O["consts"] = std::move(Cs);
    emit(std::move(O));
    return true;
  }
  bool VisitVarDecl(VarDecl *V) {
    if (V->hasGlobalStorage() && !isa<ParmVarDecl>(V) &&
        inRoot(V->getLocation())) {
      noteGlobal(V);
      drain();
    }
    return true;
  }

  void finish() {
    drain();
    json::Object O;
    O["k"] = "types";
    json::Array A;
    for (auto &T : Types)
      A.push_back(json::isUTF8(T) ? T : json::fixUTF8(T));
    O["v"] = std::move(A);
    emit(std::move(O));
    // files this TU depends on below the roots
    json::Object D;
    D["k"] = "deps";
    json::Array Fs;
    for (auto It = SM.fileinfo_begin(); It != SM.fileinfo_end(); ++It) {
      auto P = It->first->tryGetRealPathName();
      std::string N = P.empty() ? It->first->getName().str() : P.str();
      for (auto &R : Roots)
        if (llvm::StringRef(N).startswith(R))
          Fs.push_back(N);
    }
    D["v"] = std::move(Fs);
    emit(std::move(D));
  }

private:
  ASTContext &Ctx;
  SourceManager &SM;
  llvm::raw_ostream &OS;
  PrintingPolicy PP;
  std::map<FileID, bool> FileOk;
  llvm::DenseMap<void *, int> TyIdx;
  std::map<std::string, int> TyStr;
  std::vector<std::string> Types;
  llvm::DenseMap<const Decl *, int> DeclIds;
  llvm::DenseMap<const NamedDecl *, std::string> QNs;
  std::set<int> FnSeen, FnDumped;
  std::set<const Decl *> GlobSeen;
  std::vector<const LambdaExpr *> PendingLambdas;
  std::vector<const VarDecl *> PendingGlobals;
};

class Consumer : public ASTConsumer {
public:
  void HandleTranslationUnit(ASTContext &Ctx) override {
    std::error_code EC;
    llvm::raw_fd_ostream OS(OutFile, EC);
    if (EC) {
      llvm::errs() << "cannot write " << OutFile << "\n";
      exit(3);
    }
    if (Ctx.getDiagnostics().hasErrorOccurred())
      return;
    Dumper D(Ctx, OS);
    D.TraverseDecl(Ctx.getTranslationUnitDecl());
    D.finish();
  }
};
class Action : public ASTFrontendAction {
public:
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &CI,
                                                 StringRef) override {
    return std::make_unique<Consumer>();
  }
};
} // namespace

int main(int argc, char **argv) {
  std::vector<std::string> Flags;
  std::string File;
  bool AfterDD = false;
  for (int I = 1; I < argc; ++I) {
    std::string A = argv[I];
    if (AfterDD)
      Flags.push_back(A);
    else if (A == "--")
      AfterDD = true;
    else if (A == "-o")
      OutFile = argv[++I];
    else if (A == "--root")
      Roots.push_back(argv[++I]);
    else if (A == "--exclude")
      Excludes.push_back(argv[++I]);
    else
      File = A;
  }
  tooling::FixedCompilationDatabase DB(".", Flags);
  tooling::ClangTool Tool(DB, {File});
  return Tool.run(tooling::newFrontendActionFactory<Action>().get());
}
