// ppdump: emits the resolved program of one translation unit as JSON.
// Usage: ppdump OUT.json ROOT1,ROOT2 -- clang-args... file.cpp
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/Mangle.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Basic/Diagnostic.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendActions.h"
#include "clang/Lex/Lexer.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
#include <string>
using namespace clang;
namespace json = llvm::json;

static std::string OutFile;
static std::vector<std::string> Roots;

struct Dumper {
	ASTContext& Ctx;
	SourceManager& SM;
	PrintingPolicy PP;
	json::Object Funcs, Recs, Types, Globals, Enums;
	std::vector<const FunctionDecl*> Queue;
	std::set<const FunctionDecl*> Seen;
	std::set<const CXXRecordDecl*> SeenRec;
	std::map<const Decl*, int> Ids;
	Dumper(ASTContext& C) : Ctx(C), SM(C.getSourceManager()), PP(C.getPrintingPolicy())
	{
		PP.SuppressTagKeyword = true;
		PP.FullyQualifiedName = true;
		PP.PrintCanonicalTypes = true;
		PP.Bool = true;
	}
	int id(const Decl* D)
	{
		D = D->getCanonicalDecl();
		auto it = Ids.find(D);
		if (it != Ids.end()) return it->second;
		int n = Ids.size() + 1;
		Ids[D] = n;
		return n;
	}
	std::string fileOf(SourceLocation L)
	{
		L = SM.getFileLoc(L);
		auto F = SM.getFilename(L);
		return F.str();
	}
	int lineOf(SourceLocation L) { return L.isValid() ? SM.getSpellingLineNumber(SM.getFileLoc(L)) : 0; }
	bool inRepo(SourceLocation L)
	{
		if (L.isInvalid()) return false;
		std::string f = fileOf(L);
		for (auto& r : Roots)
			if (f.rfind(r, 0) == 0) return true;
		return false;
	}
	std::string typeStr(QualType T) { return T.getCanonicalType().getAsString(PP); }
	std::string recKey(const TagDecl* D)
	{
		return typeStr(Ctx.getTagDeclType(D));
	}
	std::string fnKey(const FunctionDecl* F)
	{
		F = F->getCanonicalDecl();
		std::string s;
		llvm::raw_string_ostream os(s);
		if (auto* M = dyn_cast<CXXMethodDecl>(F)) {
			if (M->getParent()->isLambda())
				os << "lambda@" << id(M->getParent()) << "::";
			else
				os << recKey(M->getParent()) << "::";
			os << F->getDeclName().getAsString();
		} else
			os << F->getQualifiedNameAsString();
		if (auto* TA = F->getTemplateSpecializationArgs()) {
			os << "<";
			for (unsigned i = 0; i < TA->size(); i++) {
				if (i) os << ",";
				TA->get(i).print(PP, os, true);
			}
			os << ">";
		}
		os << "(";
		bool first = true;
		for (auto* P : F->parameters()) {
			if (!first) os << ",";
			first = false;
			os << typeStr(P->getType());
		}
		os << ")";
		if (auto* M = dyn_cast<CXXMethodDecl>(F))
			if (M->isConst()) os << "const";
		if (F->getStorageClass() == SC_Static && !isa<CXXMethodDecl>(F)) os << "@" << fileOf(F->getLocation());
		os.flush();
		return s;
	}
	std::string type(QualType T)
	{
		if (T.isNull()) return "";
		std::string s = typeStr(T);
		if (Types.get(s)) return s;
		json::Object o;
		Types[s] = json::Object(); // placeholder for recursion
		QualType C = T.getCanonicalType();
		if (auto* R = C->getAs<ReferenceType>()) {
			o["k"] = C->isRValueReferenceType() ? "rref" : "ref";
			o["to"] = type(R->getPointeeType());
			o["cst"] = R->getPointeeType().isConstQualified();
		} else if (C->isPointerType()) {
			o["k"] = "ptr";
			o["to"] = type(C->getPointeeType());
			o["cst"] = C->getPointeeType().isConstQualified();
		} else if (C->isBooleanType())
			o["k"] = "bool";
		else if (C->isEnumeralType()) {
			o["k"] = "enum";
			auto* E = C->castAs<EnumType>()->getDecl();
			o["q"] = E->getQualifiedNameAsString();
			dumpEnum(E);
		} else if (C->isIntegerType()) {
			o["k"] = "int";
			o["sg"] = C->isSignedIntegerType();
			o["w"] = (int)Ctx.getTypeSize(C);
		} else if (C->isRealFloatingType())
			o["k"] = "real";
		else if (C->isVoidType())
			o["k"] = "void";
		else if (auto* RD = C->getAsCXXRecordDecl()) {
			o["k"] = "rec";
			o["q"] = RD->getQualifiedNameAsString();
			o["rec"] = recKey(RD);
			if (auto* S = dyn_cast<ClassTemplateSpecializationDecl>(RD)) {
				json::Array ta;
				for (auto& A : S->getTemplateArgs().asArray()) pushTA(ta, A);
				o["ta"] = std::move(ta);
			}
			if (RD->hasDefinition() && inRepo(RD->getLocation())) dumpRec(RD->getDefinition());
			if (RD->isLambda()) o["lambda"] = id(RD);
		} else if (auto* A = Ctx.getAsConstantArrayType(C)) {
			o["k"] = "arr";
			o["to"] = type(A->getElementType());
			o["n"] = (int64_t)A->getSize().getZExtValue();
		} else if (C->isFunctionType() || C->isMemberPointerType())
			o["k"] = "fnty";
		else
			o["k"] = "other";
		o["c"] = C.isConstQualified();
		Types[s] = std::move(o);
		return s;
	}
	void pushTA(json::Array& ta, const TemplateArgument& A)
	{
		switch (A.getKind()) {
		case TemplateArgument::Type: ta.push_back(type(A.getAsType())); break;
		case TemplateArgument::Integral: ta.push_back(A.getAsIntegral().isRepresentableByInt64() ? (int64_t)A.getAsIntegral().getExtValue() : -1); break;
		case TemplateArgument::Pack:
			for (auto& B : A.pack_elements()) pushTA(ta, B);
			break;
		default: ta.push_back(nullptr);
		}
	}
	void dumpEnum(const EnumDecl* E)
	{
		if (!inRepo(E->getLocation())) return;
		std::string q = E->getQualifiedNameAsString();
		if (Enums.get(q)) return;
		json::Array a;
		for (auto* C : E->enumerators())
			a.push_back(json::Array { C->getNameAsString(), C->getInitVal().isRepresentableByInt64() ? (int64_t)C->getInitVal().getExtValue() : -1 });
		Enums[q] = json::Object { { "items", std::move(a) }, { "file", fileOf(E->getLocation()) }, { "line", lineOf(E->getLocation()) } };
	}
	void want(const FunctionDecl* F)
	{
		if (!F) return;
		if (F->isDependentContext()) return;
		const FunctionDecl* Def = nullptr;
		if (!F->hasBody(Def)) {
			return;
		}
		if (Seen.insert(Def->getCanonicalDecl()).second) Queue.push_back(Def);
	}
	void dumpRec(const CXXRecordDecl* R)
	{
		if (!R || R->isDependentContext() || !SeenRec.insert(R).second) return;
		std::string key = recKey(R);
		json::Object o;
		o["q"] = R->getQualifiedNameAsString();
		o["name"] = R->getNameAsString();
		o["file"] = fileOf(R->getLocation());
		o["line"] = lineOf(R->getLocation());
		json::Array bases;
		for (auto& B : R->bases())
			if (auto* BR = B.getType()->getAsCXXRecordDecl()) {
				bases.push_back(recKey(BR));
				if (BR->hasDefinition() && inRepo(BR->getLocation())) dumpRec(BR->getDefinition());
			}
		o["bases"] = std::move(bases);
		json::Array fields;
		for (auto* F : R->fields()) {
			json::Object f { { "n", F->getNameAsString() }, { "t", type(F->getType()) }, { "acc", accStr(F->getAccess()) }, { "l", lineOf(F->getLocation()) } };
			if (F->hasInClassInitializer() && F->getInClassInitializer()) f["init"] = expr(F->getInClassInitializer());
			fields.push_back(std::move(f));
		}
		o["fields"] = std::move(fields);
		json::Array ms;
		for (auto* M : R->methods()) {
			json::Object m;
			m["key"] = fnKey(M);
			m["n"] = M->getNameAsString();
			m["virt"] = M->isVirtual();
			m["pure"] = M->isPureVirtual();
			m["cst"] = M->isConst();
			m["st"] = M->isStatic();
			m["del"] = M->isDeleted();
			m["def"] = M->isDefaulted();
			m["impl"] = M->isImplicit();
			m["acc"] = accStr(M->getAccess());
			m["l"] = lineOf(M->getLocation());
			if (auto* C = dyn_cast<CXXConstructorDecl>(M)) {
				m["kind"] = C->isCopyConstructor() ? "copyctor" : C->isMoveConstructor() ? "movector" : "ctor";
			} else if (isa<CXXDestructorDecl>(M))
				m["kind"] = "dtor";
			else if (M->isCopyAssignmentOperator())
				m["kind"] = "copyassign";
			else if (M->isMoveAssignmentOperator())
				m["kind"] = "moveassign";
			json::Array ov;
			for (auto* O : M->overridden_methods()) ov.push_back(fnKey(O));
			m["over"] = std::move(ov);
			ms.push_back(std::move(m));
			want(M);
		}
		o["methods"] = std::move(ms);
		o["copyable"] = !(R->hasUserDeclaredCopyConstructor() ? false : R->defaultedCopyConstructorIsDeleted());
		o["usercopy"] = R->hasUserDeclaredCopyConstructor();
		o["userdtor"] = R->hasUserDeclaredDestructor();
		o["hasmove"] = R->hasUserDeclaredMoveConstructor();
		o["abstract"] = R->isAbstract();
		Recs[key] = std::move(o);
	}
	static const char* accStr(AccessSpecifier a)
	{
		return a == AS_public ? "public" : a == AS_protected ? "protected" : a == AS_private ? "private" : "none";
	}
	std::string macroOf(SourceLocation L)
	{
		// outermost macro whose expansion (body or argument) contains L
		std::string name;
		while (L.isMacroID()) {
			name = Lexer::getImmediateMacroName(L, SM, Ctx.getLangOpts()).str();
			// climb to the expansion site
			L = SM.getImmediateMacroCallerLoc(L).isMacroID() ? SM.getImmediateMacroCallerLoc(L) : SM.getExpansionLoc(L);
		}
		return name;
	}
	json::Object node(const char* k, const Stmt* S)
	{
		json::Object o;
		o["k"] = k;
		o["l"] = lineOf(S->getBeginLoc());
		if (S->getBeginLoc().isMacroID()) {
			o["mac"] = macroOf(S->getBeginLoc());
		}
		return o;
	}
	bool constVal(const Expr* E, json::Object& o)
	{
		if (E->isValueDependent() || E->isTypeDependent()) return false;
		QualType T = E->getType();
		if (!(T->isIntegralOrEnumerationType() || T->isRealFloatingType() || T->isBooleanType())) return false;
		if (E->isLValue()) return false;
		Expr::EvalResult R;
		if (!E->EvaluateAsRValue(R, Ctx) || R.HasSideEffects) return false;
		if (R.Val.isInt()) {
			if (!R.Val.getInt().isRepresentableByInt64()) {
				llvm::SmallString<32> st;
				R.Val.getInt().toString(st, 10);
				o["v"] = st.str().str();
				o["big"] = true;
				return true;
			}
			o["v"] = (int64_t)R.Val.getInt().getExtValue();
			if (T->isBooleanType()) o["v"] = R.Val.getInt().getBoolValue();
			return true;
		}
		if (R.Val.isFloat()) {
			double d;
			llvm::APFloat F = R.Val.getFloat();
			bool loses;
			F.convert(llvm::APFloat::IEEEdouble(), llvm::APFloat::rmNearestTiesToEven, &loses);
			d = F.convertToDouble();
			if (std::isinf(d))
				o["v"] = d > 0 ? "inf" : "-inf";
			else if (std::isnan(d))
				o["v"] = "nan";
			else {
				char buf[64];
				snprintf(buf, sizeof buf, "%.17g", d);
				o["v"] = std::string(buf);
				o["flt"] = true;
				if (T->isSpecificBuiltinType(BuiltinType::Float)) o["f32"] = true;
			}
			return true;
		}
		return false;
	}
	json::Array exprs(ArrayRef<const Expr*> A)
	{
		json::Array r;
		for (auto* E : A) r.push_back(expr(E));
		return r;
	}
	void calleeInfo(json::Object& o, const FunctionDecl* F)
	{
		o["fn"] = fnKey(F);
		o["n"] = F->getDeclName().getAsString();
		o["q"] = F->getQualifiedNameAsString();
		if (auto* M = dyn_cast<CXXMethodDecl>(F)) {
			o["cls"] = M->getParent()->isLambda() ? std::string("lambda") : recKey(M->getParent());
			o["clsq"] = M->getParent()->getQualifiedNameAsString();
			if (M->isVirtual()) o["virt"] = true;
			if (M->isConst()) o["cst"] = true;
			if (M->isStatic()) o["st"] = true;
			if (M->getParent()->isLambda()) o["lambda"] = id(M->getParent());
		}
		bool rep = inRepo(F->getLocation());
		if (rep) {
			o["repo"] = true;
			want(F);
		}
		json::Array pt;
		for (auto* P : F->parameters()) pt.push_back(type(P->getType()));
		o["pt"] = std::move(pt);
	}
	json::Value expr(const Expr* E0)
	{
		if (!E0) return nullptr;
		const Expr* E = E0;
		// strip wrappers
		while (true) {
			if (auto* X = dyn_cast<ParenExpr>(E)) E = X->getSubExpr();
			else if (auto* X = dyn_cast<ExprWithCleanups>(E)) E = X->getSubExpr();
			else if (auto* X = dyn_cast<MaterializeTemporaryExpr>(E)) E = X->getSubExpr();
			else if (auto* X = dyn_cast<CXXBindTemporaryExpr>(E)) E = X->getSubExpr();
			else if (auto* X = dyn_cast<ConstantExpr>(E)) E = X->getSubExpr();
			else if (auto* X = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) E = X->getReplacement();
			else if (auto* X = dyn_cast<CXXStdInitializerListExpr>(E)) E = X->getSubExpr();
			else if (auto* X = dyn_cast<CXXDefaultArgExpr>(E)) E = X->getExpr();
			else if (auto* X = dyn_cast<CXXDefaultInitExpr>(E)) E = X->getExpr();
			else if (auto* X = dyn_cast<CXXRewrittenBinaryOperator>(E)) E = X->getSemanticForm();
			else break;
		}
		{
			json::Object c = node("const", E);
			if (constVal(E, c)) {
				c["t"] = type(E->getType());
				if (auto* D = dyn_cast<DeclRefExpr>(E->IgnoreParenImpCasts())) {
					if (isa<EnumConstantDecl>(D->getDecl())) {
						c["en"] = D->getDecl()->getNameAsString();
					}
				}
				// keep source subtree when it contains calls/vars only for macro checks: not needed
				return c;
			}
		}
		json::Object o;
		if (auto* C = dyn_cast<CastExpr>(E)) {
			auto ck = C->getCastKind();
			switch (ck) {
			case CK_LValueToRValue:
			case CK_NoOp:
			case CK_ConstructorConversion:
			case CK_UserDefinedConversion:
			case CK_FunctionToPointerDecay:
			case CK_ArrayToPointerDecay:
			case CK_IntegralToFloating:
			case CK_FloatingCast: {
				if (ck == CK_ArrayToPointerDecay) {
					o = node("decay", E);
					o["e"] = expr(C->getSubExpr());
					o["t"] = type(E->getType());
					return o;
				}
				if (ck == CK_LValueToRValue) {
					json::Value v = expr(C->getSubExpr());
					return v;
				}
				json::Value v = expr(C->getSubExpr());
				if (ck == CK_IntegralToFloating) {
					o = node("cast", E);
					o["ck"] = "int2real";
					o["e"] = std::move(v);
					o["t"] = type(E->getType());
					return o;
				}
				return v;
			}
			default: break;
			}
			o = node("cast", E);
			o["ck"] = C->getCastKindName();
			o["e"] = expr(C->getSubExpr());
			o["t"] = type(E->getType());
			if (isa<CXXDynamicCastExpr>(C)) o["ck"] = "dynamic";
			return o;
		}
		if (auto* D = dyn_cast<DeclRefExpr>(E)) {
			const ValueDecl* V = D->getDecl();
			if (auto* B = dyn_cast<BindingDecl>(V)) {
				o = node("var", E);
				o["id"] = id(B);
				o["n"] = B->getNameAsString();
				o["t"] = type(B->getType());
				o["bind"] = true;
				return o;
			}
			if (auto* F = dyn_cast<FunctionDecl>(V)) {
				o = node("fnref", E);
				calleeInfo(o, F);
				return o;
			}
			if (auto* VD = dyn_cast<VarDecl>(V)) {
				o = node("var", E);
				o["id"] = id(VD);
				o["n"] = VD->getNameAsString();
				o["t"] = type(VD->getType());
				if (!VD->isLocalVarDeclOrParm()) {
					o["glob"] = VD->getQualifiedNameAsString();
					if (VD->isStaticDataMember() || VD->hasGlobalStorage()) {
						std::string k = VD->getQualifiedNameAsString();
						if (auto* CD = dyn_cast<CXXRecordDecl>(VD->getDeclContext())) k = recKey(CD) + "::" + VD->getNameAsString();
						o["glob"] = k;
						if (inRepo(VD->getLocation()) && !Globals.get(k)) {
							json::Object g { { "t", type(VD->getType()) }, { "file", fileOf(VD->getLocation()) }, { "line", lineOf(VD->getLocation()) }, { "const", VD->getType().isConstQualified() } };
							Globals[k] = std::move(g);
							const VarDecl* Def = VD->getDefinition();
							if (Def && Def->getInit() && !Def->getInit()->isValueDependent() && VD->getType().isConstQualified()) {
								json::Value iv = expr(Def->getInit());
								Globals[k].getAsObject()->insert({ "init", std::move(iv) });
							}
						}
					}
				} else if (VD->isStaticLocal())
					o["static"] = true;
				return o;
			}
			if (auto* FD = dyn_cast<FieldDecl>(V)) {
				o = node("fieldref", E);
				o["n"] = FD->getNameAsString();
				o["cls"] = recKey(FD->getParent());
				o["t"] = type(FD->getType());
				return o;
			}
			o = node("unk", E);
			o["what"] = V->getDeclKindName();
			return o;
		}
		if (auto* M = dyn_cast<MemberExpr>(E)) {
			if (auto* F = dyn_cast<FieldDecl>(M->getMemberDecl())) {
				o = node("mem", E);
				o["n"] = F->getNameAsString();
				o["cls"] = recKey(F->getParent());
				o["arrow"] = M->isArrow();
				o["b"] = expr(M->getBase());
				o["t"] = type(F->getType());
				o["c"] = E->getType().isConstQualified();
				return o;
			}
			if (auto* VD = dyn_cast<VarDecl>(M->getMemberDecl())) {
				o = node("var", E);
				o["id"] = id(VD);
				o["n"] = VD->getNameAsString();
				o["t"] = type(VD->getType());
				o["glob"] = VD->getQualifiedNameAsString();
				return o;
			}
			o = node("memfn", E);
			if (auto* F = dyn_cast<FunctionDecl>(M->getMemberDecl())) calleeInfo(o, F);
			o["arrow"] = M->isArrow();
			o["b"] = expr(M->getBase());
			return o;
		}
		if (isa<CXXThisExpr>(E)) {
			o = node("this", E);
			o["t"] = type(E->getType());
			return o;
		}
		if (auto* C = dyn_cast<CXXMemberCallExpr>(E)) {
			o = node("call", E);
			o["t"] = type(E->getType());
			if (E->isLValue()) o["lv"] = true;
			if (auto* F = C->getMethodDecl()) calleeInfo(o, F);
			const Expr* Cal = C->getCallee()->IgnoreParens();
			if (auto* M = dyn_cast<MemberExpr>(Cal)) {
				o["obj"] = expr(M->getBase());
				o["arrow"] = M->isArrow();
				o["objt"] = type(M->getBase()->getType());
				if (M->hasQualifier()) o["qual"] = true; // non-virtual dispatch
			} else
				o["obj"] = expr(Cal);
			json::Array a;
			for (auto* A : C->arguments()) a.push_back(expr(A));
			o["a"] = std::move(a);
			return o;
		}
		if (auto* C = dyn_cast<CallExpr>(E)) {
			o = node("call", E);
			o["t"] = type(E->getType());
			if (E->isLValue()) o["lv"] = true;
			auto* F = C->getDirectCallee();
			unsigned start = 0;
			if (F) {
				calleeInfo(o, F);
				if (isa<CXXOperatorCallExpr>(C)) {
					o["opcall"] = getOperatorSpelling(cast<CXXOperatorCallExpr>(C)->getOperator());
					if (auto* MD = dyn_cast<CXXMethodDecl>(F); MD && !MD->isStatic()) {
						o["obj"] = expr(C->getArg(0));
						o["arrow"] = false;
						o["objt"] = type(C->getArg(0)->getType());
						start = 1;
					}
				}
			} else
				o["callee"] = expr(C->getCallee());
			json::Array a;
			for (unsigned i = start; i < C->getNumArgs(); i++) a.push_back(expr(C->getArg(i)));
			o["a"] = std::move(a);
			return o;
		}
		if (auto* C = dyn_cast<CXXConstructExpr>(E)) {
			o = node("ctor", E);
			auto* CD = C->getConstructor();
			o["t"] = type(E->getType());
			calleeInfo(o, CD);
			if (CD->isCopyConstructor()) o["copy"] = true;
			if (CD->isMoveConstructor()) o["move"] = true;
			if (CD->isDefaulted()) o["dflt"] = true;
			if (C->isListInitialization()) o["list"] = true;
			if (C->isStdInitListInitialization()) o["stdlist"] = true;
			if (CD->isTrivial()) o["triv"] = true;
			json::Array a;
			for (auto* A : C->arguments()) a.push_back(expr(A));
			o["a"] = std::move(a);
			return o;
		}
		if (auto* C = dyn_cast<CXXInheritedCtorInitExpr>(E)) {
			o = node("unk", E);
			return o;
		}
		if (auto* I = dyn_cast<InitListExpr>(E)) {
			if (I->isTransparent() && I->getNumInits() == 1) return expr(I->getInit(0));
			o = node("ilist", E);
			o["t"] = type(E->getType());
			json::Array a;
			for (auto* A : I->inits()) a.push_back(expr(A));
			o["a"] = std::move(a);
			if (I->hasArrayFiller()) o["filler"] = true;
			return o;
		}
		if (auto* B = dyn_cast<BinaryOperator>(E)) {
			o = node(B->isAssignmentOp() ? "assign" : "bin", E);
			if (auto* CA = dyn_cast<CompoundAssignOperator>(B)) {
				o["op"] = BinaryOperator::getOpcodeStr(BinaryOperator::getOpForCompoundAssignment(CA->getOpcode())).str();
				o["comp"] = true;
				o["ct"] = type(CA->getComputationResultType());
			} else
				o["op"] = B->getOpcodeStr().str();
			o["a"] = expr(B->getLHS());
			o["b"] = expr(B->getRHS());
			o["t"] = type(E->getType());
			return o;
		}
		if (auto* U = dyn_cast<UnaryOperator>(E)) {
			o = node("un", E);
			o["op"] = UnaryOperator::getOpcodeStr(U->getOpcode()).str();
			if (U->isPostfix()) o["post"] = true;
			o["e"] = expr(U->getSubExpr());
			o["t"] = type(E->getType());
			return o;
		}
		if (auto* C = dyn_cast<AbstractConditionalOperator>(E)) {
			o = node("cond", E);
			o["c"] = expr(C->getCond());
			o["a"] = expr(C->getTrueExpr());
			o["b"] = expr(C->getFalseExpr());
			o["t"] = type(E->getType());
			return o;
		}
		if (auto* A = dyn_cast<ArraySubscriptExpr>(E)) {
			o = node("idx", E);
			o["a"] = expr(A->getBase());
			o["b"] = expr(A->getIdx());
			o["t"] = type(E->getType());
			return o;
		}
		if (auto* N = dyn_cast<CXXNewExpr>(E)) {
			o = node("new", E);
			o["t"] = type(E->getType());
			o["at"] = type(N->getAllocatedType());
			o["arr"] = N->isArray();
			if (N->isArray() && N->getArraySize()) o["size"] = expr(*N->getArraySize());
			if (N->getInitializer()) o["init"] = expr(N->getInitializer());
			return o;
		}
		if (auto* D = dyn_cast<CXXDeleteExpr>(E)) {
			o = node("delete", E);
			o["arr"] = D->isArrayForm();
			o["e"] = expr(D->getArgument());
			return o;
		}
		if (auto* L = dyn_cast<LambdaExpr>(E)) {
			o = node("lambda", E);
			o["id"] = id(L->getLambdaClass());
			o["t"] = type(E->getType());
			json::Array caps;
			auto ci = L->capture_init_begin();
			for (auto& C : L->captures()) {
				json::Object c;
				c["ref"] = C.getCaptureKind() == LCK_ByRef;
				if (C.capturesThis()) c["this"] = true;
				else if (C.capturesVariable()) {
					c["id"] = id(C.getCapturedVar());
					c["n"] = C.getCapturedVar()->getNameAsString();
				}
				if (*ci) c["init"] = expr(*ci);
				++ci;
				caps.push_back(std::move(c));
			}
			o["caps"] = std::move(caps);
			json::Array ps;
			auto* M = L->getCallOperator();
			if (M && !M->isDependentContext()) {
				for (auto* P : M->parameters()) ps.push_back(param(P));
				o["ps"] = std::move(ps);
				o["body"] = stmt(M->getBody());
				o["rt"] = type(M->getReturnType());
			} else if (M) {
				// generic lambda: dump the instantiations reachable
				o["generic"] = true;
			}
			return o;
		}
		if (isa<CXXNullPtrLiteralExpr>(E) || isa<GNUNullExpr>(E)) {
			o = node("null", E);
			o["t"] = type(E->getType());
			return o;
		}
		if (auto* S = dyn_cast<StringLiteral>(E)) {
			o = node("str", E);
			if (S->getCharByteWidth() == 1) o["v"] = json::fixUTF8(S->getString());
			return o;
		}
		if (auto* S = dyn_cast<PredefinedExpr>(E)) {
			o = node("str", E);
			o["v"] = "fn";
			return o;
		}
		if (isa<CXXScalarValueInitExpr>(E) || isa<ImplicitValueInitExpr>(E)) {
			o = node("zero", E);
			o["t"] = type(E->getType());
			return o;
		}
		if (auto* T = dyn_cast<CXXThrowExpr>(E)) {
			o = node("throw", E);
			o["e"] = expr(T->getSubExpr());
			return o;
		}
		if (auto* O = dyn_cast<OpaqueValueExpr>(E)) {
			if (O->getSourceExpr()) return expr(O->getSourceExpr());
		}
		if (auto* AL = dyn_cast<ArrayInitLoopExpr>(E)) {
			o = node("arrcopy", E);
			o["t"] = type(E->getType());
			o["e"] = expr(AL->getCommonExpr());
			return o;
		}
		o = node("unk", E);
		o["what"] = E->getStmtClassName();
		o["t"] = type(E->getType());
		json::Array ch;
		for (auto* C : E->children())
			if (auto* CE = dyn_cast_or_null<Expr>(C)) ch.push_back(expr(CE));
		o["ch"] = std::move(ch);
		return o;
	}
	json::Value param(const ParmVarDecl* P)
	{
		json::Object o { { "id", id(P) }, { "n", P->getNameAsString() }, { "t", type(P->getType()) } };
		if (P->hasDefaultArg() && !P->hasUninstantiatedDefaultArg() && !P->hasUnparsedDefaultArg() && P->getDefaultArg() && !P->getDefaultArg()->isValueDependent()) o["def"] = expr(P->getDefaultArg());
		return o;
	}
	json::Value varDecl(const VarDecl* V)
	{
		json::Object o;
		o["id"] = id(V);
		o["n"] = V->getNameAsString();
		o["t"] = type(V->getType());
		o["l"] = lineOf(V->getLocation());
		if (V->isStaticLocal()) o["static"] = true;
		if (V->isConstexpr()) o["cexpr"] = true;
		if (auto* D = dyn_cast<DecompositionDecl>(V)) {
			json::Array b;
			for (auto* B : D->bindings()) b.push_back(json::Object { { "id", id(B) }, { "n", B->getNameAsString() }, { "t", type(B->getType()) } });
			o["binds"] = std::move(b);
		}
		if (V->getInit()) {
			o["init"] = expr(V->getInit());
			auto s = V->getInitStyle();
			(void)s;
		}
		if (V->getLocation().isMacroID()) o["mac"] = macroOf(V->getLocation());
		return o;
	}
	json::Value stmt(const Stmt* S)
	{
		if (!S) return nullptr;
		if (auto* E = dyn_cast<Expr>(S)) {
			json::Object o = node("expr", S);
			o["e"] = expr(E);
			return o;
		}
		json::Object o;
		if (auto* C = dyn_cast<CompoundStmt>(S)) {
			o = node("block", S);
			json::Array a;
			for (auto* X : C->body()) a.push_back(stmt(X));
			o["b"] = std::move(a);
			o["el"] = lineOf(C->getRBracLoc());
			return o;
		}
		if (auto* D = dyn_cast<DeclStmt>(S)) {
			o = node("decl", S);
			json::Array a;
			for (auto* X : D->decls())
				if (auto* V = dyn_cast<VarDecl>(X)) a.push_back(varDecl(V));
			o["d"] = std::move(a);
			return o;
		}
		if (auto* I = dyn_cast<IfStmt>(S)) {
			o = node("if", S);
			if (I->getInit()) o["init"] = stmt(I->getInit());
			if (I->getConditionVariable()) o["cv"] = varDecl(I->getConditionVariable());
			if (I->isConstexpr()) o["cexpr"] = true;
			o["c"] = expr(I->getCond());
			o["then"] = stmt(I->getThen());
			o["else"] = stmt(I->getElse());
			return o;
		}
		if (auto* W = dyn_cast<WhileStmt>(S)) {
			o = node("while", S);
			if (W->getConditionVariable()) o["cv"] = varDecl(W->getConditionVariable());
			o["c"] = expr(W->getCond());
			o["body"] = stmt(W->getBody());
			o["lid"] = lineOf(S->getBeginLoc()) * 1000 + SM.getSpellingColumnNumber(SM.getFileLoc(S->getBeginLoc()));
			return o;
		}
		if (auto* W = dyn_cast<DoStmt>(S)) {
			o = node("do", S);
			o["c"] = expr(W->getCond());
			o["body"] = stmt(W->getBody());
			return o;
		}
		if (auto* F = dyn_cast<ForStmt>(S)) {
			o = node("for", S);
			if (F->getInit()) o["init"] = stmt(F->getInit());
			if (F->getConditionVariable()) o["cv"] = varDecl(F->getConditionVariable());
			if (F->getCond()) o["c"] = expr(F->getCond());
			if (F->getInc()) o["inc"] = expr(F->getInc());
			o["body"] = stmt(F->getBody());
			return o;
		}
		if (auto* F = dyn_cast<CXXForRangeStmt>(S)) {
			o = node("rfor", S);
			if (F->getInit()) o["init"] = stmt(F->getInit());
			o["range"] = expr(F->getRangeInit());
			o["rt"] = type(F->getRangeInit()->getType());
			o["var"] = varDecl(F->getLoopVariable());
			o["body"] = stmt(F->getBody());
			return o;
		}
		if (auto* R = dyn_cast<ReturnStmt>(S)) {
			o = node("return", S);
			if (R->getRetValue()) o["e"] = expr(R->getRetValue());
			return o;
		}
		if (isa<BreakStmt>(S)) return node("break", S);
		if (isa<ContinueStmt>(S)) return node("continue", S);
		if (isa<NullStmt>(S)) return node("nop", S);
		if (auto* W = dyn_cast<SwitchStmt>(S)) {
			o = node("switch", S);
			if (W->getInit()) o["init"] = stmt(W->getInit());
			if (W->getConditionVariable()) o["cv"] = varDecl(W->getConditionVariable());
			o["c"] = expr(W->getCond());
			// flatten the body into a list of items: {case: [..]/default} / stmt
			json::Array items;
			if (auto* B = dyn_cast<CompoundStmt>(W->getBody())) {
				for (auto* X : B->body()) flattenCase(X, items);
			} else
				flattenCase(W->getBody(), items);
			o["items"] = std::move(items);
			return o;
		}
		if (auto* A = dyn_cast<AttributedStmt>(S)) return stmt(A->getSubStmt());
		if (auto* T = dyn_cast<CXXTryStmt>(S)) {
			o = node("try", S);
			o["body"] = stmt(T->getTryBlock());
			json::Array h;
			for (unsigned i = 0; i < T->getNumHandlers(); i++) h.push_back(stmt(T->getHandler(i)->getHandlerBlock()));
			o["h"] = std::move(h);
			return o;
		}
		o = node("unkstmt", S);
		o["what"] = S->getStmtClassName();
		return o;
	}
	void flattenCase(const Stmt* X, json::Array& items)
	{
		if (auto* C = dyn_cast<CaseStmt>(X)) {
			json::Object o = node("case", X);
			o["v"] = expr(C->getLHS());
			if (C->getRHS()) o["hi"] = expr(C->getRHS());
			items.push_back(std::move(o));
			flattenCase(C->getSubStmt(), items);
		} else if (auto* D = dyn_cast<DefaultStmt>(X)) {
			json::Object o = node("default", X);
			items.push_back(std::move(o));
			flattenCase(D->getSubStmt(), items);
		} else
			items.push_back(stmt(X));
	}
	void dumpFn(const FunctionDecl* F)
	{
		std::string key = fnKey(F);
		if (Funcs.get(key)) return;
		json::Object o;
		o["n"] = F->getDeclName().getAsString();
		o["q"] = F->getQualifiedNameAsString();
		o["file"] = fileOf(F->getLocation());
		o["line"] = lineOf(F->getLocation());
		o["end"] = lineOf(F->getEndLoc());
		o["rt"] = type(F->getReturnType());
		if (F->isImplicit()) o["impl"] = true;
		json::Array ps;
		for (auto* P : F->parameters()) ps.push_back(param(P));
		o["ps"] = std::move(ps);
		if (auto* M = dyn_cast<CXXMethodDecl>(F)) {
			o["cls"] = M->getParent()->isLambda() ? std::string("lambda") : recKey(M->getParent());
			o["clsq"] = M->getParent()->getQualifiedNameAsString();
			o["virt"] = M->isVirtual();
			if (M->getAccess() == AS_private || M->getAccess() == AS_protected) o["prv"] = true;
			o["cst"] = M->isConst();
			o["st"] = M->isStatic();
			if (!M->getParent()->isLambda()) dumpRec(M->getParent());
		}
		if (auto* TA = F->getTemplateSpecializationArgs()) {
			json::Array ta;
			for (unsigned i = 0; i < TA->size(); i++) pushTA(ta, TA->get(i));
			o["ta"] = std::move(ta);
		}
		if (auto* C = dyn_cast<CXXConstructorDecl>(F)) {
			o["kind"] = "ctor";
			json::Array in;
			for (auto* I : C->inits()) {
				json::Object i;
				if (I->isBaseInitializer()) i["base"] = type(QualType(I->getBaseClass(), 0));
				else if (I->isDelegatingInitializer()) i["deleg"] = true;
				else if (I->isAnyMemberInitializer()) {
					i["f"] = I->getAnyMember()->getNameAsString();
					i["ft"] = type(I->getAnyMember()->getType());
				}
				i["e"] = expr(I->getInit());
				i["l"] = lineOf(I->getSourceLocation());
				i["w"] = I->isWritten();
				in.push_back(std::move(i));
			}
			o["inits"] = std::move(in);
		} else if (isa<CXXDestructorDecl>(F))
			o["kind"] = "dtor";
		o["body"] = stmt(F->getBody());
		Funcs[key] = std::move(o);
	}
};

struct Collect : RecursiveASTVisitor<Collect> {
	Dumper& D;
	Collect(Dumper& d) : D(d) { }
	bool shouldVisitTemplateInstantiations() const { return true; }
	bool shouldVisitImplicitCode() const { return true; }
	bool VisitFunctionDecl(FunctionDecl* F)
	{
		if (F->isDependentContext()) return true;
		if (auto* M = dyn_cast<CXXMethodDecl>(F))
			if (M->getParent()->isLambda()) return true;
		if (F->doesThisDeclarationHaveABody() && D.inRepo(F->getLocation())) D.want(F);
		return true;
	}
	bool VisitCXXRecordDecl(CXXRecordDecl* R)
	{
		if (R->isDependentContext() || !R->isThisDeclarationADefinition() || R->isLambda()) return true;
		if (D.inRepo(R->getLocation())) D.dumpRec(R);
		return true;
	}
	bool VisitEnumDecl(EnumDecl* E)
	{
		if (!E->isDependentContext()) D.dumpEnum(E);
		return true;
	}
};

struct Consumer : ASTConsumer {
	void HandleTranslationUnit(ASTContext& C) override
	{
		Dumper D(C);
		Collect V(D);
		V.TraverseDecl(C.getTranslationUnitDecl());
		for (size_t i = 0; i < D.Queue.size(); i++) {
			auto* F = D.Queue[i];
			if (auto* M = dyn_cast<CXXMethodDecl>(F))
				if (M->getParent()->isLambda()) continue;
			D.dumpFn(F);
		}
		json::Object out;
		out["funcs"] = std::move(D.Funcs);
		out["recs"] = std::move(D.Recs);
		out["types"] = std::move(D.Types);
		out["globals"] = std::move(D.Globals);
		out["enums"] = std::move(D.Enums);
		out["errors"] = (int)C.getDiagnostics().getClient()->getNumErrors();
		std::error_code EC;
		llvm::raw_fd_ostream os(OutFile, EC);
		os << json::Value(std::move(out));
	}
};
struct Action : ASTFrontendAction {
	std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance& CI, StringRef) override
	{
		return std::make_unique<Consumer>();
	}
};
int main(int argc, const char** argv)
{
	if (argc < 5) {
		llvm::errs() << "usage\n";
		return 2;
	}
	OutFile = argv[1];
	std::string r = argv[2], cur;
	for (char c : r + ",")
		if (c == ',') {
			if (!cur.empty()) Roots.push_back(cur);
			cur.clear();
		} else
			cur += c;
	std::vector<std::string> args;
	std::string file = argv[argc - 1];
	for (int i = 4; i < argc - 1; i++) args.push_back(argv[i]);
	clang::tooling::FixedCompilationDatabase DB(".", args);
	clang::tooling::ClangTool T(DB, { file });
	T.appendArgumentsAdjuster(clang::tooling::getClangSyntaxOnlyAdjuster());
	int rc = T.run(clang::tooling::newFrontendActionFactory<Action>().get());
	return rc;
}
