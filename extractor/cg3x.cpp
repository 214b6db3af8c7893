// cg3x: dumps the type-checked program (resolved AST + clang CFG) of CG-3 translation units as JSON.
// One process handles several TUs; entities already emitted by the process are skipped.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Analysis/CFG.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Index/USRGeneration.h"
#include "clang/Tooling/CommonOptionsParser.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/ConvertUTF.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
#include <string>
#include <vector>
using namespace clang;
namespace json = llvm::json;

static std::vector<std::string> Roots;
static std::set<std::string> Done;
static llvm::raw_ostream* OS;

struct Dumper {
	ASTContext& C;
	SourceManager& SM;
	PrintingPolicy PP;
	std::string mainFile;
	Dumper(ASTContext& C)
	  : C(C), SM(C.getSourceManager()), PP(C.getLangOpts()) {
		PP.SuppressTagKeyword = true;
		PP.Bool = true;
		if (auto* FE = SM.getFileEntryForID(SM.getMainFileID())) mainFile = FE->tryGetRealPathName().str();
	}

	std::string fileOf(SourceLocation L) {
		L = SM.getExpansionLoc(L);
		if (L.isInvalid()) return "";
		auto FID = SM.getFileID(L);
		if (auto FE = SM.getFileEntryRefForID(FID)) {
			auto p = FE->getFileEntry().tryGetRealPathName().str();
			return p.empty() ? FE->getName().str() : p;
		}
		return "";
	}
	bool inRoots(SourceLocation L) {
		auto f = fileOf(L);
		for (auto& r : Roots)
			if (f.compare(0, r.size(), r) == 0) return true;
		return false;
	}
	unsigned lineOf(SourceLocation L) { return SM.getExpansionLineNumber(L); }
	std::string shortFile(SourceLocation L) { return fileOf(L); }

	std::string typeStr(QualType T) {
		if (T.isNull()) return "";
		return T.getCanonicalType().getAsString(PP);
	}
	std::string locId(SourceLocation L) {
		L = SM.getExpansionLoc(L);
		auto D = SM.getDecomposedLoc(L);
		return fileOf(L) + ":" + std::to_string(D.second);
	}
	std::string usr(const Decl* D) {
		llvm::SmallString<128> buf;
		if (index::generateUSRForDecl(D, buf)) return locId(D->getLocation());
		return std::string(buf.str());
	}
	std::string funcId(const FunctionDecl* FD) {
		if (auto* MD = dyn_cast<CXXMethodDecl>(FD)) {
			if (MD->getParent()->isLambda()) {
				std::string s = "lambda@" + locId(MD->getParent()->getLocation());
				if (auto* I = FD->getTemplateInstantiationPattern(); I && I != FD) {
					s += "<";
					for (auto* p : FD->parameters()) s += typeStr(p->getType()) + ",";
					s += ">";
				}
				// enclosing instantiation
				const DeclContext* DC = MD->getParent()->getDeclContext();
				while (DC && !DC->isFileContext()) {
					if (auto* F = dyn_cast<FunctionDecl>(DC)) {
						if (F->isTemplateInstantiation() || (isa<CXXMethodDecl>(F) && isa<ClassTemplateSpecializationDecl>(cast<CXXMethodDecl>(F)->getParent()))) s += "@" + usr(F);
						break;
					}
					DC = DC->getParent();
				}
				return s;
			}
		}
		std::string u = usr(FD);
		if (FD->isMain() || (FD->getStorageClass() == SC_Static && !isa<CXXMethodDecl>(FD)))
			u += "@" + mainFile;
		return u;
	}
	std::string qname(const NamedDecl* D) {
		std::string s;
		llvm::raw_string_ostream o(s);
		D->printQualifiedName(o, PP);
		o.flush();
		if (s.compare(0, 5, "CG3::") == 0) s = s.substr(5);
		return s;
	}
	std::string recName(const RecordDecl* R) {
		std::string s;
		if (auto* S = dyn_cast<ClassTemplateSpecializationDecl>(R))
			s = C.getRecordType(S).getCanonicalType().getAsString(PP);
		else if (auto* RR = dyn_cast<CXXRecordDecl>(R); RR && RR->isLambda())
			s = "lambda@" + locId(R->getLocation());
		else if (R->getDeclName().isEmpty()) {
			// anonymous struct/union: name by the enclosing record, so that fields look like direct members
			const DeclContext* DC = R->getDeclContext();
			if (R->isAnonymousStructOrUnion()) {
				if (auto* P = dyn_cast<RecordDecl>(DC)) return recName(P);
			}
			s = "anon@" + locId(R->getLocation());
		}
		else s = qname(R);
		if (s.compare(0, 5, "CG3::") == 0) s = s.substr(5);
		return s;
	}
	std::string varId(const ValueDecl* V) {
		if (auto* VD = dyn_cast<VarDecl>(V)) {
			if (VD->hasGlobalStorage() && !VD->isStaticLocal()) {
				auto id = usr(VD);
				return id;
			}
		}
		if (V->getLocation().isInvalid() || !V->getDeclName()) {
			return "anon" + std::to_string(V->getID());
		}
		std::string s = locId(V->getLocation());
		if (V->getLocation().isMacroID()) s += "!" + V->getNameAsString();
		if (V->isImplicit()) s += "#" + std::to_string(V->getID());
		return s;
	}

	// ---- per function
	std::vector<json::Value> nodes;
	std::map<const Stmt*, int> idOf;
	unsigned curFileLine = 0;

	const Stmt* strip(const Stmt* S) {
		while (S) {
			if (auto* E = dyn_cast<ImplicitCastExpr>(S)) {
				S = E->getSubExpr();
				continue;
			}
			if (auto* E = dyn_cast<ParenExpr>(S)) {
				S = E->getSubExpr();
				continue;
			}
			if (auto* E = dyn_cast<ExprWithCleanups>(S)) {
				S = E->getSubExpr();
				continue;
			}
			if (auto* E = dyn_cast<MaterializeTemporaryExpr>(S)) {
				S = E->getSubExpr();
				continue;
			}
			if (auto* E = dyn_cast<CXXBindTemporaryExpr>(S)) {
				S = E->getSubExpr();
				continue;
			}
			if (auto* E = dyn_cast<ConstantExpr>(S)) {
				S = E->getSubExpr();
				continue;
			}
			if (auto* E = dyn_cast<SubstNonTypeTemplateParmExpr>(S)) {
				S = E->getReplacement();
				continue;
			}
			if (auto* E = dyn_cast<CXXDefaultArgExpr>(S)) {
				S = E->getExpr();
				continue;
			}
			if (auto* E = dyn_cast<CXXDefaultInitExpr>(S)) {
				S = E->getExpr();
				continue;
			}
			if (auto* E = dyn_cast<CXXConstructExpr>(S)) {
				// elide copy/move construction of a class from a same-type temporary
				if (E->isElidable() && E->getNumArgs() == 1) {
					S = E->getArg(0);
					continue;
				}
			}
			if (auto* E = dyn_cast<OpaqueValueExpr>(S); E && E->getSourceExpr()) {
				S = E->getSourceExpr();
				continue;
			}
			break;
		}
		return S;
	}

	std::vector<const FunctionDecl*> lambdas;

	static std::string utf(const StringLiteral* SL) {
		if (SL->getCharByteWidth() == 1) return SL->getBytes().str();
		std::string out;
		if (SL->getCharByteWidth() == 2) {
			std::vector<llvm::UTF16> v;
			for (unsigned i = 0; i < SL->getLength(); ++i) v.push_back(SL->getCodeUnit(i));
			llvm::convertUTF16ToUTF8String(llvm::ArrayRef<llvm::UTF16>(v), out);
		}
		else {
			for (unsigned i = 0; i < SL->getLength(); ++i) out.push_back(char(SL->getCodeUnit(i)));
		}
		return out;
	}

	int add(json::Object o) {
		nodes.push_back(std::move(o));
		return int(nodes.size()) - 1;
	}

	int node(const Stmt* S0) {
		if (!S0) return -1;
		const Stmt* S = strip(S0);
		if (!S) return -1;
		auto it = idOf.find(S);
		if (it != idOf.end()) {
			idOf[S0] = it->second;
			return it->second;
		}
		int my = add(json::Object{});
		idOf[S] = my;
		idOf[S0] = my;
		json::Object o;
		json::Array c;
		o["k"] = S->getStmtClassName();
		o["l"] = lineOf(S->getBeginLoc());
		if (auto* E = dyn_cast<Expr>(S)) {
			o["t"] = typeStr(E->getType());
			if (!E->isValueDependent() && !E->isTypeDependent() && (E->getType()->isIntegralOrEnumerationType())) {
				Expr::EvalResult R;
				if (!isa<StringLiteral>(E) && E->EvaluateAsInt(R, C, Expr::SE_NoSideEffects)) {
					llvm::SmallString<32> s;
					R.Val.getInt().toString(s, 10);
					// keep small ints as ints
					if (R.Val.getInt().isRepresentableByInt64())
						o["ev"] = R.Val.getInt().getExtValue();
					else
						o["evs"] = s.str().str();
				}
			}
		}
		auto kid = [&](const Stmt* s) { c.push_back(node(s)); };

		if (auto* E = dyn_cast<DeclRefExpr>(S)) {
			auto* D = E->getDecl();
			o["d"] = D->getNameAsString();
			o["dk"] = D->getDeclKindName();
			if (auto* F = dyn_cast<FunctionDecl>(D)) {
				o["id"] = funcId(F);
				o["q"] = qname(F);
			}
			else if (auto* EC = dyn_cast<EnumConstantDecl>(D)) {
				o["q"] = qname(EC);
				o["ed"] = qname(cast<NamedDecl>(EC->getDeclContext()));
			}
			else {
				o["id"] = varId(D);
				if (auto* VD = dyn_cast<VarDecl>(D); VD && VD->hasGlobalStorage()) {
					o["g"] = 1;
					o["q"] = qname(VD);
				}
				if (auto* B = dyn_cast<BindingDecl>(D)) {
					if (B->getDecomposedDecl()) o["dec"] = varId(B->getDecomposedDecl());
				}
			}
		}
		else if (auto* E = dyn_cast<MemberExpr>(S)) {
			auto* D = E->getMemberDecl();
			o["m"] = D->getNameAsString();
			o["dk"] = D->getDeclKindName();
			if (auto* R = dyn_cast<RecordDecl>(D->getDeclContext())) o["mc"] = recName(R);
			if (E->isArrow()) o["ar"] = 1;
			if (auto* F = dyn_cast<FunctionDecl>(D)) o["id"] = funcId(F);
			if (E->isImplicitAccess()) o["imp"] = 1;
			// skip anonymous struct/union layers
			const Expr* B = E->getBase();
			while (true) {
				const Stmt* bs = strip(B);
				auto* ME = dyn_cast_or_null<MemberExpr>(bs);
				if (!ME) break;
				auto* FD = dyn_cast<FieldDecl>(ME->getMemberDecl());
				if (!FD || !FD->isAnonymousStructOrUnion()) break;
				B = ME->getBase();
			}
			kid(B);
		}
		else if (isa<CXXThisExpr>(S)) {
		}
		else if (auto* E = dyn_cast<CallExpr>(S)) {
			if (auto* F = E->getDirectCallee()) {
				o["fn"] = qname(F);
				o["fs"] = F->getNameAsString();
				o["fid"] = funcId(F);
				if (auto* MD = dyn_cast<CXXMethodDecl>(F)) {
					o["cls"] = recName(MD->getParent());
					if (MD->isConst()) o["cm"] = 1;
					if (MD->isStatic()) o["stat"] = 1;
					if (MD->isVirtual()) {
						bool qual = false;
						if (auto* ME = dyn_cast<MemberExpr>(E->getCallee()->IgnoreParenImpCasts())) qual = ME->hasQualifier();
						if (!qual) o["virt"] = 1;
					}
				}
				if (F->isNoReturn()) o["nr"] = 1;
				json::Array pt;
				for (auto* p : F->parameters()) pt.push_back(typeStr(p->getType()));
				o["pt"] = std::move(pt);
				if (auto* TA = F->getTemplateSpecializationArgs()) {
					json::Array ta;
					for (auto& a : TA->asArray()) {
						std::string s;
						llvm::raw_string_ostream r(s);
						a.print(PP, r, true);
						ta.push_back(r.str());
					}
					o["ta"] = std::move(ta);
				}
			}
			if (auto* OC = dyn_cast<CXXOperatorCallExpr>(E)) o["op"] = getOperatorSpelling(OC->getOperator());
			// children: callee, then args. For member calls callee is MemberExpr whose child is the object.
			kid(E->getCallee());
			for (auto* a : E->arguments()) kid(a);
		}
		else if (auto* E = dyn_cast<CXXConstructExpr>(S)) {
			o["cls"] = recName(E->getConstructor()->getParent());
			o["fid"] = funcId(E->getConstructor());
			if (E->getConstructor()->isCopyOrMoveConstructor()) o["copy"] = 1;
			for (auto* a : E->arguments()) kid(a);
		}
		else if (auto* E = dyn_cast<CompoundAssignOperator>(S)) {
			o["op"] = E->getOpcodeStr().str();
			kid(E->getLHS());
			kid(E->getRHS());
		}
		else if (auto* E = dyn_cast<BinaryOperator>(S)) {
			o["op"] = E->getOpcodeStr().str();
			kid(E->getLHS());
			kid(E->getRHS());
		}
		else if (auto* E = dyn_cast<UnaryOperator>(S)) {
			o["op"] = UnaryOperator::getOpcodeStr(E->getOpcode()).str();
			if (E->isPostfix()) o["post"] = 1;
			kid(E->getSubExpr());
		}
		else if (auto* E = dyn_cast<IntegerLiteral>(S)) {
			(void)E;
		}
		else if (auto* E = dyn_cast<FloatingLiteral>(S)) {
			llvm::SmallString<32> s;
			E->getValue().toString(s);
			o["v"] = s.str().str();
		}
		else if (auto* E = dyn_cast<StringLiteral>(S)) {
			std::string v = utf(E);
			if (!json::isUTF8(v)) v = json::fixUTF8(v);
			o["v"] = v;
		}
		else if (auto* E = dyn_cast<ExplicitCastExpr>(S)) {
			o["ct"] = typeStr(E->getTypeAsWritten());
			kid(E->getSubExpr());
		}
		else if (auto* E = dyn_cast<LambdaExpr>(S)) {
			auto* OpD = E->getCallOperator();
			auto* FT = E->getLambdaClass()->getDependentLambdaCallOperator();
			o["lam"] = funcId(OpD);
			json::Array caps;
			unsigned ci = 0;
			for (auto& cp : E->captures()) {
				json::Object q;
				q["ref"] = cp.getCaptureKind() == LCK_ByRef;
				if (cp.capturesThis()) q["this"] = 1;
				else if (cp.capturesVariable()) {
					q["id"] = varId(cp.getCapturedVar());
					q["d"] = cp.getCapturedVar()->getNameAsString();
				}
				auto* in = *(E->capture_init_begin() + ci);
				++ci;
				q["init"] = in ? node(in) : -1;
				caps.push_back(std::move(q));
			}
			o["caps"] = std::move(caps);
			if (!FT) lambdas.push_back(OpD);
			else {
				for (auto* sp : FT->specializations()) lambdas.push_back(sp->getAsFunction());
			}
		}
		else if (auto* E = dyn_cast<CXXNewExpr>(S)) {
			o["nt"] = typeStr(E->getAllocatedType());
			if (E->isArray() && E->getArraySize()) {
				o["arr"] = 1;
				kid(*E->getArraySize());
			}
			if (E->getInitializer()) kid(E->getInitializer());
			for (unsigned i = 0; i < E->getNumPlacementArgs(); ++i) kid(E->getPlacementArg(i));
		}
		else if (auto* E = dyn_cast<CXXDeleteExpr>(S)) {
			kid(E->getArgument());
		}
		else if (auto* E = dyn_cast<InitListExpr>(S)) {
			auto* F = E->isSemanticForm() ? E : (E->getSemanticForm() ? E->getSemanticForm() : E);
			for (auto* i : F->inits()) kid(i);
			if (auto* R = F->getType()->getAsRecordDecl()) {
				o["rec"] = recName(R);
				json::Array fs;
				for (auto* f : R->fields()) fs.push_back(f->getNameAsString());
				o["fields"] = std::move(fs);
			}
		}
		else if (auto* E = dyn_cast<UnaryExprOrTypeTraitExpr>(S)) {
			if (!E->isArgumentType()) kid(E->getArgumentExpr());
			else o["at"] = typeStr(E->getArgumentType());
		}
		else if (auto* D = dyn_cast<DeclStmt>(S)) {
			for (auto* d : D->decls()) {
				if (auto* V = dyn_cast<VarDecl>(d)) c.push_back(varNode(V));
				else if (auto* T = dyn_cast<TypedefNameDecl>(d)) (void)T;
			}
		}
		else if (auto* I = dyn_cast<IfStmt>(S)) {
			kid(I->getInit());
			kid(I->getCond());
			kid(I->getThen());
			kid(I->getElse());
			if (I->getConditionVariableDeclStmt()) o["cv"] = node(I->getConditionVariableDeclStmt());
			if (I->isConstexpr()) o["cx"] = 1;
		}
		else if (auto* W = dyn_cast<WhileStmt>(S)) {
			kid(W->getCond());
			kid(W->getBody());
			if (W->getConditionVariableDeclStmt()) o["cv"] = node(W->getConditionVariableDeclStmt());
		}
		else if (auto* W = dyn_cast<DoStmt>(S)) {
			kid(W->getBody());
			kid(W->getCond());
		}
		else if (auto* F = dyn_cast<ForStmt>(S)) {
			kid(F->getInit());
			kid(F->getCond());
			kid(F->getInc());
			kid(F->getBody());
		}
		else if (auto* F = dyn_cast<CXXForRangeStmt>(S)) {
			kid(F->getRangeStmt());
			kid(F->getBeginStmt());
			kid(F->getEndStmt());
			kid(F->getCond());
			kid(F->getInc());
			kid(F->getLoopVarStmt());
			kid(F->getBody());
			kid(F->getInit());
			o["ri"] = node(F->getRangeInit());
			o["lv"] = varId(F->getLoopVariable());
		}
		else if (auto* W = dyn_cast<SwitchStmt>(S)) {
			kid(W->getInit());
			kid(W->getCond());
			kid(W->getBody());
			if (W->getConditionVariableDeclStmt()) o["cv"] = node(W->getConditionVariableDeclStmt());
			if (W->isAllEnumCasesCovered()) o["all"] = 1;
		}
		else if (auto* K = dyn_cast<CaseStmt>(S)) {
			kid(K->getLHS());
			kid(K->getRHS());
			kid(K->getSubStmt());
		}
		else if (auto* G = dyn_cast<GotoStmt>(S)) {
			o["lbl"] = G->getLabel()->getNameAsString();
		}
		else if (auto* L = dyn_cast<LabelStmt>(S)) {
			o["lbl"] = L->getDecl()->getNameAsString();
			kid(L->getSubStmt());
		}
		else if (auto* T = dyn_cast<CXXCatchStmt>(S)) {
			o["ct"] = typeStr(T->getCaughtType());
			if (T->getExceptionDecl()) c.push_back(varNode(T->getExceptionDecl()));
			kid(T->getHandlerBlock());
		}
		else if (auto* P = dyn_cast<CXXPseudoDestructorExpr>(S)) {
			kid(P->getBase());
		}
		else if (isa<CXXInheritedCtorInitExpr>(S)) {
		}
		else {
			for (auto* ch : S->children()) kid(ch);
		}
		if (!c.empty()) o["c"] = std::move(c);
		nodes[my] = std::move(o);
		return my;
	}

	std::map<const VarDecl*, int> varNodes;
	int varNode(const VarDecl* V) {
		auto it = varNodes.find(V);
		if (it != varNodes.end()) return it->second;
		int my = add(json::Object{});
		varNodes[V] = my;
		json::Object o;
		o["k"] = "VarDecl";
		o["l"] = lineOf(V->getLocation());
		o["d"] = V->getNameAsString();
		o["id"] = varId(V);
		o["t"] = typeStr(V->getType());
		if (V->isStaticLocal()) o["sl"] = 1;
		if (V->getTLSKind() != VarDecl::TLS_None) o["tls"] = 1;
		if (auto* D = dyn_cast<DecompositionDecl>(V)) {
			json::Array b;
			for (auto* x : D->bindings()) b.push_back(json::Array{ x->getNameAsString(), varId(x) });
			o["bind"] = std::move(b);
		}
		json::Array c;
		if (V->getInit()) c.push_back(node(V->getInit()));
		if (!c.empty()) o["c"] = std::move(c);
		nodes[my] = std::move(o);
		return my;
	}

	void emit(json::Object o) {
		json::Value v(std::move(o));
		*OS << v << "\n";
	}

	void func(const FunctionDecl* FD) {
		if (!FD->doesThisDeclarationHaveABody() && !FD->isDefaulted()) return;
		if (FD->isDependentContext() || FD->isDeleted()) return;
		if (!FD->getBody()) return;
		if (!inRoots(FD->getLocation())) return;
		std::string id = funcId(FD);
		if (!Done.insert("F" + id).second) return;
		nodes.clear();
		idOf.clear();
		varNodes.clear();
		std::vector<const FunctionDecl*> saved;
		saved.swap(lambdas);

		json::Object o;
		o["kind"] = "func";
		o["id"] = id;
		o["q"] = qname(FD);
		o["n"] = FD->getNameAsString();
		o["file"] = shortFile(FD->getLocation());
		o["line"] = lineOf(FD->getBeginLoc());
		o["end"] = lineOf(FD->getEndLoc());
		o["ret"] = typeStr(FD->getReturnType());
		o["main"] = mainFile;
		if (FD->getStorageClass() == SC_Static) o["static"] = 1;
		json::Array ps;
		for (auto* p : FD->parameters()) {
			json::Object q;
			q["d"] = p->getNameAsString();
			q["id"] = varId(p);
			q["t"] = typeStr(p->getType());
			ps.push_back(std::move(q));
		}
		o["params"] = std::move(ps);
		if (FD->isTemplateInstantiation()) o["inst"] = 1;
		if (auto* MD = dyn_cast<CXXMethodDecl>(FD)) {
			o["cls"] = recName(MD->getParent());
			if (MD->isConst()) o["const"] = 1;
			if (MD->isStatic()) o["smeth"] = 1;
			if (MD->isVirtual()) o["virt"] = 1;
			json::Array ov;
			for (auto* m : MD->overridden_methods()) ov.push_back(funcId(m));
			if (!ov.empty()) o["ov"] = std::move(ov);
			if (MD->getParent()->isLambda()) o["lam"] = 1;
		}
		std::vector<std::pair<const CXXCtorInitializer*, json::Object>> inits;
		if (auto* CD = dyn_cast<CXXConstructorDecl>(FD)) {
			o["ctor"] = CD->isCopyConstructor() ? "copy" : CD->isMoveConstructor() ? "move" : CD->isDefaultConstructor() ? "default" : "other";
			json::Array in;
			for (auto* i : CD->inits()) {
				json::Object q;
				if (i->isAnyMemberInitializer()) {
					q["m"] = i->getAnyMember()->getNameAsString();
					q["mc"] = recName(cast<RecordDecl>(i->getAnyMember()->getDeclContext()));
				}
				else if (i->isBaseInitializer()) q["base"] = typeStr(QualType(i->getBaseClass(), 0));
				else q["deleg"] = 1;
				if (i->isWritten()) q["w"] = 1;
				if (i->isInClassMemberInitializer()) q["ic"] = 1;
				q["init"] = node(i->getInit());
				in.push_back(std::move(q));
			}
			o["inits"] = std::move(in);
		}
		if (isa<CXXDestructorDecl>(FD)) o["dtor"] = 1;
		const Stmt* body = FD->getBody();
		o["body"] = node(body);

		CFG::BuildOptions BO;
		BO.setAllAlwaysAdd();
		BO.AddInitializers = true;
		BO.AddImplicitDtors = true;
		BO.AddEHEdges = false;
		BO.PruneTriviallyFalseEdges = true;
		auto cfg = CFG::buildCFG(FD, const_cast<Stmt*>(body), &C, BO);
		if (cfg) {
			json::Object cf;
			cf["entry"] = (int)cfg->getEntry().getBlockID();
			cf["exit"] = (int)cfg->getExit().getBlockID();
			json::Object bl;
			for (auto* B : *cfg) {
				json::Object b;
				json::Array els;
				int last = -2;
				for (auto& e : *B) {
					switch (e.getKind()) {
					case CFGElement::Statement:
					case CFGElement::Constructor:
					case CFGElement::CXXRecordTypedCall: {
						int n = node(e.castAs<CFGStmt>().getStmt());
						if (n != last) els.push_back(n);
						last = n;
						break;
					}
					case CFGElement::Initializer: {
						auto* i = e.castAs<CFGInitializer>().getInitializer();
						std::string m = i->isAnyMemberInitializer() ? i->getAnyMember()->getNameAsString() : i->isBaseInitializer() ? "base" : "deleg";
						els.push_back(json::Array{ "init", m, node(i->getInit()) });
						last = -2;
						break;
					}
					case CFGElement::AutomaticObjectDtor: {
						auto d = e.castAs<CFGAutomaticObjDtor>();
						els.push_back(json::Array{ "dtor", varId(d.getVarDecl()), typeStr(d.getVarDecl()->getType()) });
						last = -2;
						break;
					}
					default:
						break;
					}
				}
				b["e"] = std::move(els);
				if (auto* T = B->getTerminatorStmt()) {
					b["t"] = node(T);
					if (auto* tc = B->getTerminatorCondition(false)) b["tc"] = node(tc);
					if (!B->getTerminator().isStmtBranch()) b["tk"] = (int)B->getTerminator().getKind();
				}
				if (auto* L = B->getLabel()) b["lb"] = node(L);
				json::Array su;
				for (auto I = B->succ_begin(), E = B->succ_end(); I != E; ++I) {
					const CFGBlock* R = I->getReachableBlock();
					su.push_back(R ? (int)R->getBlockID() : -1);
				}
				b["s"] = std::move(su);
				if (B->hasNoReturnElement()) b["nr"] = 1;
				bl[std::to_string(B->getBlockID())] = std::move(b);
			}
			cf["b"] = std::move(bl);
			o["cfg"] = std::move(cf);
		}
		json::Array na;
		for (auto& n : nodes) na.push_back(std::move(n));
		nodes.clear();
		o["nodes"] = std::move(na);
		emit(std::move(o));
		auto ls = lambdas;
		lambdas.swap(saved);
		for (auto* l : ls) func(l);
	}

	void record(const CXXRecordDecl* R) {
		if (!R->isThisDeclarationADefinition() || R->isDependentContext()) return;
		if (!inRoots(R->getLocation())) return;
		if (R->isLambda()) return;
		std::string n = recName(R);
		if (!R->isAnonymousStructOrUnion()) {
			if (!Done.insert("R" + n).second) return;
		}
		else return;
		json::Object o;
		o["kind"] = "record";
		o["q"] = n;
		o["file"] = shortFile(R->getLocation());
		o["line"] = lineOf(R->getLocation());
		if (R->isUnion()) o["union"] = 1;
		json::Array bases;
		for (auto& b : R->bases()) {
			if (auto* BR = b.getType()->getAsCXXRecordDecl()) bases.push_back(recName(BR));
		}
		o["bases"] = std::move(bases);
		json::Array fs;
		fields(R, fs, "");
		o["fields"] = std::move(fs);
		json::Array sm;
		for (auto* d : R->decls()) {
			if (auto* V = dyn_cast<VarDecl>(d)) {
				json::Object q;
				q["d"] = V->getNameAsString();
				q["t"] = typeStr(V->getType());
				q["line"] = lineOf(V->getLocation());
				if (V->getTLSKind() != VarDecl::TLS_None) q["tls"] = 1;
				sm.push_back(std::move(q));
			}
		}
		o["statics"] = std::move(sm);
		json::Array ms;
		for (auto* m : R->methods()) {
			json::Object q;
			q["n"] = m->getNameAsString();
			q["id"] = funcId(m);
			if (m->isVirtual()) q["virt"] = 1;
			if (m->isPureVirtual()) q["pure"] = 1;
			if (m->isImplicit() || m->isDefaulted()) q["impl"] = 1;
			if (m->isConst()) q["const"] = 1;
			json::Array ov;
			for (auto* x : m->overridden_methods()) ov.push_back(funcId(x));
			if (!ov.empty()) q["ov"] = std::move(ov);
			ms.push_back(std::move(q));
		}
		o["methods"] = std::move(ms);
		emit(std::move(o));
	}
	void fields(const RecordDecl* R, json::Array& fs, std::string un) {
		for (auto* f : R->fields()) {
			if (f->isAnonymousStructOrUnion()) {
				if (auto* RR = f->getType()->getAsRecordDecl()) {
					std::string u = un;
					if (RR->isUnion()) u = "u" + std::to_string(lineOf(RR->getLocation()));
					fields(RR, fs, u);
				}
				continue;
			}
			json::Object q;
			q["d"] = f->getNameAsString();
			q["t"] = typeStr(f->getType());
			q["line"] = lineOf(f->getLocation());
			if (!un.empty()) q["union"] = un;
			if (f->isBitField()) q["bits"] = (int)f->getBitWidthValue(C);
			if (f->hasInClassInitializer()) {
				q["ini"] = 1;
				if (auto* ie = f->getInClassInitializer(); ie && !ie->isValueDependent()) {
					Expr::EvalResult er;
					if (ie->EvaluateAsRValue(er, C) && !er.HasSideEffects) {
						if (er.Val.isInt()) q["iv"] = er.Val.getInt().getExtValue();
						else if (er.Val.isFloat()) q["iv"] = er.Val.getFloat().isZero() ? 0 : 1;
						else if (er.Val.isLValue() && er.Val.isNullPointer()) q["iv"] = 0;
					}
				}
			}
			if (f->isMutable()) q["mut"] = 1;
			fs.push_back(std::move(q));
		}
	}
	void enumd(const EnumDecl* E) {
		if (!E->isThisDeclarationADefinition() || !inRoots(E->getLocation())) return;
		std::string n = E->getDeclName().isEmpty() ? "anon@" + locId(E->getLocation()) : qname(E);
		if (!Done.insert("E" + n).second) return;
		json::Object o;
		o["kind"] = "enum";
		o["q"] = n;
		o["file"] = shortFile(E->getLocation());
		o["line"] = lineOf(E->getLocation());
		o["ut"] = typeStr(E->getIntegerType());
		json::Array cs;
		for (auto* c : E->enumerators()) {
			llvm::SmallString<32> s;
			c->getInitVal().toString(s, 10);
			cs.push_back(json::Array{ c->getNameAsString(), s.str().str(), (int)lineOf(c->getLocation()) });
		}
		o["cs"] = std::move(cs);
		emit(std::move(o));
	}
	void global(const VarDecl* V) {
		if (!V->hasGlobalStorage()) return;
		if (!inRoots(V->getLocation())) return;
		if (V->getDeclContext()->isDependentContext()) return;
		if (isa<ParmVarDecl>(V)) return;
		bool isdef = V->isThisDeclarationADefinition() != VarDecl::DeclarationOnly;
		std::string id = varId(V);
		if (V->getStorageClass() == SC_Static && V->isFileVarDecl() && fileOf(V->getLocation()) == mainFile) id += "";
		if (!Done.insert(std::string(isdef ? "V" : "v") + id).second) return;
		nodes.clear();
		idOf.clear();
		varNodes.clear();
		std::vector<const FunctionDecl*> saved;
		saved.swap(lambdas);
		json::Object o;
		o["kind"] = "global";
		o["id"] = id;
		o["q"] = qname(V);
		o["d"] = V->getNameAsString();
		o["t"] = typeStr(V->getType());
		o["file"] = shortFile(V->getLocation());
		o["line"] = lineOf(V->getLocation());
		o["def"] = isdef;
		if (V->getTLSKind() != VarDecl::TLS_None) o["tls"] = 1;
		if (V->isStaticLocal()) o["sl"] = 1;
		if (V->isConstexpr()) o["cx"] = 1;
		if (V->getType().isConstQualified() || C.getBaseElementType(V->getType()).isConstQualified()) o["const"] = 1;
		if (auto* F = dyn_cast_or_null<FunctionDecl>(V->getParentFunctionOrMethod())) o["in"] = funcId(F);
		if (V->getInit() && !V->getInit()->isValueDependent()) o["init"] = node(V->getInit());
		json::Array na;
		for (auto& n : nodes) na.push_back(std::move(n));
		nodes.clear();
		o["nodes"] = std::move(na);
		emit(std::move(o));
		auto ls = lambdas;
		lambdas.swap(saved);
		for (auto* l : ls) func(l);
	}
};

struct V : RecursiveASTVisitor<V> {
	Dumper D;
	V(ASTContext& C)
	  : D(C) {}
	bool shouldVisitTemplateInstantiations() const { return true; }
	bool shouldVisitImplicitCode() const { return false; }
	std::vector<const FunctionDecl*> fs;
	std::vector<const VarDecl*> gs;
	// declarations of system headers are of no interest
	bool TraverseDecl(Decl* X) {
		if (X && !isa<TranslationUnitDecl>(X) && X->getLocation().isValid()) {
			auto* DC = X->getDeclContext();
			if (DC && DC->isFileContext() && D.C.getSourceManager().isInSystemHeader(X->getLocation())) return true;
		}
		return RecursiveASTVisitor<V>::TraverseDecl(X);
	}
	bool VisitFunctionDecl(FunctionDecl* FD) {
		if (auto* MD = dyn_cast<CXXMethodDecl>(FD); MD && MD->getParent()->isLambda()) return true;
		fs.push_back(FD);
		return true;
	}
	bool VisitCXXRecordDecl(CXXRecordDecl* R) {
		D.record(R);
		return true;
	}
	bool VisitEnumDecl(EnumDecl* E) {
		D.enumd(E);
		return true;
	}
	bool VisitVarDecl(VarDecl* V) {
		if (V->hasGlobalStorage()) gs.push_back(V);
		return true;
	}
};
struct Cons : ASTConsumer {
	std::string file;
	void HandleTranslationUnit(ASTContext& C) override {
		V v(C);
		v.TraverseDecl(C.getTranslationUnitDecl());
		for (auto* f : v.fs) v.D.func(f);
		for (auto* g : v.gs) v.D.global(g);
		json::Object o;
		o["kind"] = "tu";
		o["file"] = v.D.mainFile;
		o["errors"] = (int)C.getDiagnostics().getClient()->getNumErrors();
		v.D.emit(std::move(o));
	}
};
struct Act : ASTFrontendAction {
	std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance& CI, StringRef f) override { return std::make_unique<Cons>(); }
};

int main(int argc, char** argv) {
	// cg3x OUT root1,root2 file... -- flags...
	std::string out = argv[1], roots = argv[2];
	std::vector<std::string> files, flags;
	int i = 3;
	for (; i < argc && std::string(argv[i]) != "--"; ++i) files.push_back(argv[i]);
	for (++i; i < argc; ++i) flags.push_back(argv[i]);
	size_t p = 0;
	while (p <= roots.size()) {
		auto q = roots.find(',', p);
		if (q == std::string::npos) q = roots.size();
		Roots.push_back(roots.substr(p, q - p));
		p = q + 1;
	}
	std::error_code ec;
	llvm::raw_fd_ostream os(out, ec);
	if (ec) return 3;
	OS = &os;
	int rc = 0;
	for (auto& f : files) {
		tooling::FixedCompilationDatabase DB(".", flags);
		tooling::ClangTool T(DB, { f });
		rc |= T.run(tooling::newFrontendActionFactory<Act>().get());
	}
	os.flush();
	return rc ? 2 : 0;
}
