// mewafacts: libTooling fact extractor for the mewa checks.
// For one translation unit it emits, as JSON lines, every function body of the analysed source tree
// (templates as instantiated, lambdas, implicit special members) with: resolved callees, types, constants,
// the expression/statement tree, the clang control flow graph, lexical try regions; plus records, enums, globals.
// Usage: mewafacts <source root> <file> <out> -- <compile args...>
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/Mangle.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/RecordLayout.h"
#include "clang/Analysis/CFG.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Tooling/Tooling.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Sema/Sema.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
#include <string>
#include <vector>

using namespace clang;

static std::string g_root;
static std::string g_out;

static std::string q( llvm::StringRef s)
{
	std::string r = "\"";
	for (unsigned char c : s)
	{
		if (c == '"' || c == '\\') { r += '\\'; r += c; }
		else if (c == '\n') r += "\\n";
		else if (c == '\t') r += "\\t";
		else if (c == '\r') r += "\\r";
		else if (c < 32 || c >= 127) { char b[8]; snprintf( b, sizeof b, "\\u%04x", c); r += b; }
		else r += c;
	}
	return r + "\"";
}

class Extractor :public RecursiveASTVisitor<Extractor>
{
public:
	Extractor( ASTContext& ctx_, Sema& sema_, llvm::raw_ostream& out_)
		:ctx(ctx_),sm(ctx_.getSourceManager()),sema(sema_),out(out_),names(ctx_),pp(ctx_.getPrintingPolicy())
	{
		pp.SuppressTagKeyword = true;
		pp.Bool = true;
	}
	bool shouldVisitTemplateInstantiations() const {return true;}
	bool shouldVisitImplicitCode() const {return true;}

	std::string fileOf( SourceLocation loc)
	{
		if (loc.isInvalid()) return "";
		loc = sm.getExpansionLoc( loc);
		llvm::StringRef f = sm.getFilename( loc);
		llvm::StringRef root( g_root);
		if (f.starts_with( root)) {f = f.drop_front( root.size()); while (f.starts_with("/")) f = f.drop_front(1); return f.str();}
		return "";
	}
	std::string ty( QualType t) { return t.getCanonicalType().getAsString( pp);}

	std::string funcKey( const FunctionDecl* fd)
	{
		fd = fd->getCanonicalDecl();
		auto it = keycache.find( fd);
		if (it != keycache.end()) return it->second;
		std::string nm;
		if (auto cd = dyn_cast<CXXConstructorDecl>( fd)) { (void)cd; nm = names.getName( fd); }
		else nm = names.getName( fd);
		if (auto md = dyn_cast<CXXMethodDecl>( fd))
		{
			if (md->getParent()->isLambda())
			{
				nm = "lambda@" + std::to_string( sm.getExpansionLineNumber( md->getParent()->getBeginLoc())) + ":"
					+ std::to_string( sm.getExpansionColumnNumber( md->getParent()->getBeginLoc()))
					+ "@" + fileOf( md->getParent()->getBeginLoc()) + "@" + nm;
			}
		}
		if (nm.empty()) nm = fd->getQualifiedNameAsString();
		if (!fd->isExternallyVisible()) nm += "@" + sm.getFilename( sm.getLocForStartOfFile( sm.getMainFileID())).str().substr( g_root.size());
		keycache[ fd] = nm;
		return nm;
	}
	std::string qualName( const NamedDecl* nd)
	{
		std::string s;
		llvm::raw_string_ostream os( s);
		nd->getNameForDiagnostic( os, pp, true);
		return os.str();
	}
	bool canThrow( QualType ft, const FunctionDecl* fd)
	{
		const FunctionProtoType* fpt = ft->getAs<FunctionProtoType>();
		if (!fpt) return true;
		if (isUnresolvedExceptionSpec( fpt->getExceptionSpecType()))
		{
			if (!fd) return true;
			fpt = sema.ResolveExceptionSpec( fd->getLocation(), fpt);
			if (!fpt) return true;
		}
		return fpt->canThrow() != CT_Cannot;
	}
	std::string intInfo( QualType t)
	{
		t = t.getCanonicalType();
		if (t->isIntegralOrEnumerationType() && !t->isDependentType())
		{
			if (auto et = t->getAs<EnumType>()) { if (!et->getDecl()->isComplete()) return ""; }
			return "[" + std::to_string( ctx.getIntWidth( t)) + "," + (t->isSignedIntegerOrEnumerationType() ? "1":"0") + "]";
		}
		return "";
	}
	std::string varId( const ValueDecl* vd)
	{
		if (auto v = dyn_cast<VarDecl>( vd))
		{
			v = v->getCanonicalDecl();
			if (!v->isLocalVarDeclOrParm() )
			{
				std::string nm = names.getName( v);
				if (nm.empty()) nm = v->getQualifiedNameAsString();
				if (!v->isExternallyVisible()) nm += "@" + sm.getFilename( sm.getLocForStartOfFile( sm.getMainFileID())).str().substr( g_root.size());
				return "G:" + nm;
			}
			auto it = localids.find( v);
			if (it == localids.end())
			{
				int n = ++localcnt;
				it = localids.insert( {v, n}).first;
			}
			return "L:" + v->getNameAsString() + "#" + std::to_string( it->second);
		}
		if (isa<BindingDecl>( vd) || isa<ImplicitParamDecl>( vd))
		{
			auto it = localids.find( vd);
			if (it == localids.end()) it = localids.insert( {vd, ++localcnt}).first;
			return "L:" + vd->getNameAsString() + "#" + std::to_string( it->second);
		}
		return "D:" + vd->getQualifiedNameAsString();
	}

	// ---- expression / statement nodes of one function
	struct Nodes
	{
		std::map<const Stmt*,int> ids;
		std::vector<std::string> json;
	};
	Nodes* cur = nullptr;
	std::vector<int> tryStack;

	void calleeAttrs( std::string& j, const FunctionDecl* fd)
	{
		if (!fd) return;
		j += ",\"fn\":" + q( funcKey( fd)) + ",\"qn\":" + q( qualName( fd));
		if (!canThrow( fd->getType(), fd)) j += ",\"nx\":1";
		if (fd->isExternC()) j += ",\"xc\":1";
		if (fd->isNoReturn()) j += ",\"nr\":1";
		if (fd->isVariadic()) j += ",\"va\":1";
		if (auto md = dyn_cast<CXXMethodDecl>( fd))
		{
			if (md->isVirtual()) j += ",\"virt\":1";
			if (md->isConst()) j += ",\"cm\":1";
			if (md->isStatic()) j += ",\"sm\":1";
			j += ",\"cls\":" + q( ty( ctx.getRecordType( md->getParent())));
		}
		std::string ff = fileOf( fd->getLocation());
		if (!ff.empty()) j += ",\"in\":1";
	}

	int emit( const Stmt* s)
	{
		if (!s) return -1;
		auto it = cur->ids.find( s);
		if (it != cur->ids.end()) return it->second;
		int id = cur->json.size();
		cur->ids[ s] = id;
		cur->json.push_back( "");
		std::string j = "{\"k\":" + q( s->getStmtClassName());
		SourceLocation bl = sm.getExpansionLoc( s->getBeginLoc());
		if (auto me = dyn_cast<MemberExpr>( s)) { if (me->getMemberLoc().isValid()) bl = sm.getExpansionLoc( me->getMemberLoc()); }
		if (bl.isValid()) j += ",\"l\":" + std::to_string( sm.getSpellingLineNumber( bl));
		if (!tryStack.empty())
		{
			j += ",\"try\":[";
			for (size_t i=0; i<tryStack.size(); ++i) { if (i) j += ","; j += std::to_string( tryStack[i]);}
			j += "]";
		}
		std::vector<const Stmt*> kids;
		bool defaultKids = true;
		if (auto e = dyn_cast<Expr>( s))
		{
			QualType t = e->getType();
			if (!t.isNull() && !t->isDependentType())
			{
				j += ",\"t\":" + q( ty( t));
				std::string ii = intInfo( t);
				if (!ii.empty()) j += ",\"ti\":" + ii;
				if (e->isGLValue()) j += ",\"lv\":1";
				if (!e->isValueDependent() && !e->isTypeDependent() && (t->isIntegralOrEnumerationType()))
				{
					Expr::EvalResult er;
					if (e->EvaluateAsInt( er, ctx, Expr::SE_NoSideEffects))
					{
						llvm::SmallString<32> sv;
						er.Val.getInt().toString( sv, 10);
						j += ",\"cv\":\"" + std::string( sv.str()) + "\"";
					}
				}
				else if (!e->isValueDependent() && !e->isTypeDependent() && t->isRealFloatingType() && ctx.getTypeSize( t) <= 64 && !isa<FloatingLiteral>( e))
				{
					Expr::EvalResult er;
					if (e->EvaluateAsRValue( er, ctx) && er.Val.isFloat() && !er.HasSideEffects)
					{
						char fb[ 64];
						std::snprintf( fb, sizeof(fb), "%.17g", er.Val.getFloat().convertToDouble());
						j += std::string(",\"fc\":\"") + fb + "\"";
					}
				}
			}
		}
		switch (s->getStmtClass())
		{
			case Stmt::DeclRefExprClass:
			{
				auto d = cast<DeclRefExpr>( s)->getDecl();
				if (auto fd = dyn_cast<FunctionDecl>( d)) { j += ",\"dk\":\"fn\""; calleeAttrs( j, fd);}
				else if (auto ec = dyn_cast<EnumConstantDecl>( d)) { j += ",\"dk\":\"enum\",\"v\":" + q( qualName( ec));}
				else
				{
					j += ",\"dk\":" + q( isa<ParmVarDecl>(d) ? "parm" : (isa<VarDecl>(d) ? (cast<VarDecl>(d)->hasGlobalStorage() ? (cast<VarDecl>(d)->isStaticLocal() ? "slocal":"global") : "local") : "other"));
					j += ",\"v\":" + q( varId( d)) + ",\"n\":" + q( d->getNameAsString());
					if (d->getType()->isReferenceType()) j += ",\"ref\":1";
					if (auto vd = dyn_cast<VarDecl>( d)) if (vd->hasGlobalStorage()) j += ",\"qn\":" + q( qualName( vd));
				}
				break;
			}
			case Stmt::MemberExprClass:
			{
				auto me = cast<MemberExpr>( s);
				auto d = me->getMemberDecl();
				if (me->isArrow()) j += ",\"arrow\":1";
				if (auto fd = dyn_cast<FunctionDecl>( d)) { j += ",\"dk\":\"fn\""; calleeAttrs( j, fd);}
				else
				{
					j += ",\"dk\":\"field\",\"n\":" + q( d->getNameAsString());
					if (auto f = dyn_cast<FieldDecl>( d)) { j += ",\"f\":" + q( ty( ctx.getRecordType( f->getParent())) + "::" + d->getNameAsString()); if (f->getType()->isReferenceType()) j += ",\"ref\":1"; }
					else j += ",\"f\":" + q( qualName( d));
				}
				break;
			}
			case Stmt::CXXThisExprClass: break;
			case Stmt::CallExprClass:
			case Stmt::CXXMemberCallExprClass:
			case Stmt::CXXOperatorCallExprClass:
			case Stmt::UserDefinedLiteralClass:
			{
				auto ce = cast<CallExpr>( s);
				if (auto fd = ce->getDirectCallee()) calleeAttrs( j, fd);
				else
				{
					j += ",\"ind\":1";
					QualType ct = ce->getCallee()->getType();
					if (ct->isPointerType()) ct = ct->getPointeeType();
					if (!canThrow( ct, nullptr)) j += ",\"nx\":1";
				}
				if (auto oc = dyn_cast<CXXOperatorCallExpr>( s)) j += ",\"op\":" + q( getOperatorSpelling( oc->getOperator()));
				break;
			}
			case Stmt::CXXConstructExprClass:
			case Stmt::CXXTemporaryObjectExprClass:
			{
				auto ce = cast<CXXConstructExpr>( s);
				calleeAttrs( j, ce->getConstructor());
				if (ce->getConstructor()->isCopyConstructor()) j += ",\"cc\":1";
				if (ce->getConstructor()->isMoveConstructor()) j += ",\"mc\":1";
				if (ce->isElidable()) j += ",\"elide\":1";
				if (ce->isListInitialization()) j += ",\"li\":1";
				if (ce->getConstructor()->isTrivial()) j += ",\"triv\":1";
				break;
			}
			case Stmt::CXXNewExprClass:
			{
				auto ne = cast<CXXNewExpr>( s);
				if (ne->isArray()) j += ",\"arr\":1";
				j += ",\"np\":" + std::to_string( ne->getNumPlacementArgs());
				j += ",\"at\":" + q( ty( ne->getAllocatedType()));
				if (auto on = ne->getOperatorNew()) { calleeAttrs( j, on);}
				if (auto ce = ne->getConstructExpr()) { j += ",\"ctor\":" + q( funcKey( ce->getConstructor())); }
				defaultKids = false;
				for (auto c : s->children()) kids.push_back( c);
				break;
			}
			case Stmt::CXXDeleteExprClass:
			{
				auto de = cast<CXXDeleteExpr>( s);
				if (de->isArrayForm()) j += ",\"arr\":1";
				QualType dt = de->getDestroyedType();
				if (!dt.isNull())
				{
					j += ",\"at\":" + q( ty( dt));
					if (auto rd = dt->getAsCXXRecordDecl()) if (rd->hasDefinition()) if (auto dd = rd->getDestructor()) { j += ",\"dtor\":" + q( funcKey( dd)); }
				}
				break;
			}
			case Stmt::UnaryOperatorClass:
				j += ",\"op\":" + q( UnaryOperator::getOpcodeStr( cast<UnaryOperator>( s)->getOpcode()));
				if (cast<UnaryOperator>( s)->isPostfix()) j += ",\"post\":1";
				break;
			case Stmt::BinaryOperatorClass:
				j += ",\"op\":" + q( cast<BinaryOperator>( s)->getOpcodeStr());
				break;
			case Stmt::CompoundAssignOperatorClass:
				j += ",\"op\":" + q( cast<BinaryOperator>( s)->getOpcodeStr());
				break;
			case Stmt::IntegerLiteralClass:
			case Stmt::CXXBoolLiteralExprClass:
				break;
			case Stmt::CharacterLiteralClass:
				break;
			case Stmt::FloatingLiteralClass:
			{
				llvm::SmallString<32> sv;
				cast<FloatingLiteral>( s)->getValue().toString( sv);
				j += ",\"fv\":" + q( sv);
				break;
			}
			case Stmt::StringLiteralClass:
			{
				auto sl = cast<StringLiteral>( s);
				if (sl->getCharByteWidth() == 1) j += ",\"s\":" + q( sl->getBytes());
				break;
			}
			case Stmt::ImplicitCastExprClass:
			case Stmt::CStyleCastExprClass:
			case Stmt::CXXStaticCastExprClass:
			case Stmt::CXXReinterpretCastExprClass:
			case Stmt::CXXConstCastExprClass:
			case Stmt::CXXDynamicCastExprClass:
			case Stmt::CXXFunctionalCastExprClass:
			{
				auto ce = cast<CastExpr>( s);
				j += ",\"ck\":" + q( ce->getCastKindName());
				if (auto fd = dyn_cast_or_null<FunctionDecl>( ce->getConversionFunction())) { j += ",\"conv\":" + q( funcKey( fd));}
				break;
			}
			case Stmt::UnaryExprOrTypeTraitExprClass:
			{
				auto u = cast<UnaryExprOrTypeTraitExpr>( s);
				j += ",\"ut\":" + q( u->getKind() == UETT_SizeOf ? "sizeof" : "other") + ",\"at\":" + q( ty( u->getTypeOfArgument()));
				if (!u->isArgumentType()) {
					// operand kept as child for `sizeof expr`
				}
				break;
			}
			case Stmt::CXXDefaultArgExprClass:
				defaultKids = false;
				kids.push_back( cast<CXXDefaultArgExpr>( s)->getExpr());
				break;
			case Stmt::CXXDefaultInitExprClass:
				defaultKids = false;
				kids.push_back( cast<CXXDefaultInitExpr>( s)->getExpr());
				break;
			case Stmt::OpaqueValueExprClass:
				defaultKids = false;
				if (auto se = cast<OpaqueValueExpr>( s)->getSourceExpr()) kids.push_back( se);
				break;
			case Stmt::LambdaExprClass:
			{
				auto le = cast<LambdaExpr>( s);
				j += ",\"lam\":" + q( funcKey( le->getCallOperator()));
				defaultKids = false;
				for (auto c : le->capture_inits()) kids.push_back( c);
				j += ",\"caps\":[";
				bool first = true;
				for (auto const& c : le->captures())
				{
					if (!first) j += ","; first = false;
					if (c.capturesVariable()) j += "[" + q( varId( c.getCapturedVar())) + "," + (c.getCaptureKind() == LCK_ByRef ? "1":"0") + "]";
					else j += "[\"this\",1]";
				}
				j += "]";
				break;
			}
			case Stmt::DeclStmtClass:
			{
				defaultKids = false;
				j += ",\"vars\":[";
				bool first = true;
				for (auto d : cast<DeclStmt>( s)->decls())
				{
					if (auto vd = dyn_cast<VarDecl>( d))
					{
						int init = vd->getInit() ? emit( vd->getInit()) : -1;
						if (!first) j += ","; first = false;
						j += "{\"v\":" + q( varId( vd)) + ",\"n\":" + q( vd->getNameAsString()) + ",\"t\":" + q( ty( vd->getType())) + ",\"init\":" + std::to_string( init);
						std::string ii = intInfo( vd->getType());
						if (!ii.empty()) j += ",\"ti\":" + ii;
						if (vd->isStaticLocal()) j += ",\"static\":1";
						if (vd->isConstexpr() || vd->getType().isConstQualified()) j += ",\"const\":1";
						if (vd->getType()->isReferenceType()) j += ",\"ref\":1";
						if (auto rd = vd->getType()->getBaseElementTypeUnsafe()->getAsCXXRecordDecl())
						{
							if (rd->hasDefinition()) { if (auto dd = rd->getDestructor()) if (!vd->getType()->isReferenceType()) { j += ",\"dtor\":" + q( funcKey( dd)); if (!rd->hasTrivialDestructor()) j += ",\"ntd\":1"; if (canThrow( dd->getType(), dd)) j += ",\"dthrow\":1";} }
						}
						if (auto dec = dyn_cast<DecompositionDecl>( vd))
						{
							j += ",\"bind\":[";
							bool fb = true;
							for (auto b : dec->bindings()) { if (!fb) j += ","; fb = false; int bi = emit( b->getBinding()); j += "[" + q( varId( b)) + "," + std::to_string( bi) + "]"; }
							j += "]";
						}
						j += "}";
					}
				}
				j += "]";
				break;
			}
			case Stmt::CXXTryStmtClass:
			{
				defaultKids = false;
				auto ts = cast<CXXTryStmt>( s);
				tryStack.push_back( id);
				int b = emit( ts->getTryBlock());
				tryStack.pop_back();
				j += ",\"c\":[" + std::to_string( b) + "],\"handlers\":[";
				for (unsigned i=0; i<ts->getNumHandlers(); ++i)
				{
					if (i) j += ",";
					j += std::to_string( emit( ts->getHandler(i)));
				}
				j += "]";
				break;
			}
			case Stmt::CXXCatchStmtClass:
			{
				defaultKids = false;
				auto cs = cast<CXXCatchStmt>( s);
				QualType ct = cs->getCaughtType();
				j += ",\"ct\":" + q( ct.isNull() ? std::string("...") : ty( ct));
				if (auto vd = cs->getExceptionDecl()) j += ",\"v\":" + q( varId( vd));
				j += ",\"c\":[" + std::to_string( emit( cs->getHandlerBlock())) + "]";
				break;
			}
			case Stmt::SwitchStmtClass:
			{
				auto ss = cast<SwitchStmt>( s);
				QualType ct = ss->getCond()->IgnoreParenImpCasts()->getType();
				j += ",\"st\":" + q( ty( ct));
				break;
			}
			case Stmt::CaseStmtClass: break;
			default: break;
		}
		if (auto ts = dyn_cast<CXXTryStmt>( s)) { (void)ts; }
		else if (!isa<CXXCatchStmt>( s))
		{
			if (defaultKids) for (auto c : s->children()) kids.push_back( c);
			j += ",\"c\":[";
			for (size_t i=0; i<kids.size(); ++i)
			{
				if (i) j += ",";
				j += std::to_string( emit( kids[i]));
			}
			j += "]";
		}
		j += "}";
		cur->json[ id] = j;
		return id;
	}

	void emitFunction( const FunctionDecl* fd)
	{
		if (!fd->doesThisDeclarationHaveABody() && !fd->isDefaulted()) return;
		if (fd->isDependentContext() || fd->isDeleted()) return;
		std::string file = fileOf( fd->getLocation());
		if (file.empty()) return;
		Stmt* body = fd->getBody();
		if (!body) return;
		std::string key = funcKey( fd);
		if (!done.insert( key).second) return;

		Nodes nodes; cur = &nodes; localids.clear(); localcnt = 0; tryStack.clear();
		std::string params = "[";
		for (unsigned i=0; i<fd->getNumParams(); ++i)
		{
			auto p = fd->getParamDecl(i);
			if (i) params += ",";
			params += "{\"v\":" + q( varId( p)) + ",\"n\":" + q( p->getNameAsString()) + ",\"t\":" + q( ty( p->getType()));
			std::string ii = intInfo( p->getType());
			if (!ii.empty()) params += ",\"ti\":" + ii;
			params += "}";
		}
		params += "]";
		std::string inits = "[";
		if (auto cd = dyn_cast<CXXConstructorDecl>( fd))
		{
			bool first = true;
			for (auto i : cd->inits())
			{
				if (!first) inits += ","; first = false;
				int e = emit( i->getInit());
				if (i->isAnyMemberInitializer()) inits += "{\"f\":" + q( i->getAnyMember()->getNameAsString());
				else if (i->isBaseInitializer()) inits += "{\"base\":" + q( ty( QualType( i->getBaseClass(), 0)));
				else inits += "{\"deleg\":1";
				if (i->isWritten()) inits += ",\"w\":1";
				if (i->isInClassMemberInitializer()) inits += ",\"dflt\":1";
				inits += ",\"e\":" + std::to_string( e) + "}";
			}
		}
		inits += "]";
		int bodyid = emit( body);

		// CFG
		CFG::BuildOptions bo;
		bo.PruneTriviallyFalseEdges = false;
		bo.AddImplicitDtors = true;
		bo.AddInitializers = true;
		bo.AddEHEdges = false;
		bo.AddTemporaryDtors = false;
		bo.setAllAlwaysAdd();
		std::unique_ptr<CFG> cfg = CFG::buildCFG( fd, body, &ctx, bo);
		std::string cj = "null";
		if (cfg)
		{
			cj = "{\"entry\":" + std::to_string( cfg->getEntry().getBlockID()) + ",\"exit\":" + std::to_string( cfg->getExit().getBlockID()) + ",\"b\":[";
			bool firstb = true;
			for (auto b : *cfg)
			{
				if (!firstb) cj += ","; firstb = false;
				cj += "{\"id\":" + std::to_string( b->getBlockID()) + ",\"e\":[";
				bool fe = true;
				for (auto const& el : *b)
				{
					std::string x;
					if (auto cs = el.getAs<CFGStmt>()) { x = std::to_string( emit( cs->getStmt()));}
					else if (auto ci = el.getAs<CFGInitializer>())
					{
						auto in = ci->getInitializer();
						x = "[\"init\"," + (in->isAnyMemberInitializer() ? q( in->getAnyMember()->getNameAsString()) : std::string("null")) + "," + std::to_string( emit( in->getInit())) + "]";
					}
					else if (auto ad = el.getAs<CFGAutomaticObjDtor>())
					{
						auto dd = ad->getDestructorDecl( ctx);
						x = "[\"dtor\"," + q( varId( ad->getVarDecl())) + "," + (dd ? q( funcKey( dd)) : std::string("null")) + "]";
					}
					if (x.empty()) continue;
					if (!fe) cj += ","; fe = false;
					cj += x;
				}
				cj += "]";
				if (const Stmt* lab = b->getLabel()) cj += ",\"lab\":" + std::to_string( emit( lab));
				const Stmt* ts = b->getTerminatorStmt();
				if (ts)
				{
					cj += ",\"term\":" + std::to_string( emit( ts));
					const Stmt* tc = b->getTerminatorCondition( false);
					if (tc) cj += ",\"cond\":" + std::to_string( emit( tc));
					const Stmt* tl = b->getLastCondition();
					if (tl) cj += ",\"lcond\":" + std::to_string( emit( tl));
				}
				if (b->hasNoReturnElement()) cj += ",\"nr\":1";
				cj += ",\"s\":[";
				bool fs = true;
				for (auto si = b->succ_begin(); si != b->succ_end(); ++si)
				{
					if (!fs) cj += ","; fs = false;
					const CFGBlock* sb = si->getReachableBlock();
					if (!sb) sb = si->getPossiblyUnreachableBlock();
					cj += sb ? std::to_string( sb->getBlockID()) : std::string("-1");
				}
				cj += "]}";
			}
			cj += "]}";
		}
		out << "{\"kind\":\"fn\",\"key\":" << q( key) << ",\"qn\":" << q( qualName( fd)) << ",\"n\":" << q( fd->getNameAsString());
		out << ",\"file\":" << q( file) << ",\"l\":" << sm.getExpansionLineNumber( fd->getLocation()) << ",\"el\":" << sm.getExpansionLineNumber( fd->getEndLoc());
		out << ",\"ret\":" << q( ty( fd->getReturnType()));
		std::string rii = intInfo( fd->getReturnType());
		if (!rii.empty()) out << ",\"rti\":" << rii;
		if (!canThrow( fd->getType(), fd)) out << ",\"nx\":1";
		if (fd->isExternC()) out << ",\"xc\":1";
		if (fd->isDefaulted()) out << ",\"dflt\":1";
		if (fd->isImplicit()) out << ",\"impl\":1";
		if (fd->isNoReturn()) out << ",\"nr\":1";
		if (fd->isVariadic()) out << ",\"va\":1";
		if (!fd->isExternallyVisible()) out << ",\"int\":1";
		if (fd->isTemplateInstantiation()) out << ",\"inst\":1";
		if (auto md = dyn_cast<CXXMethodDecl>( fd))
		{
			out << ",\"cls\":" << q( ty( ctx.getRecordType( md->getParent())));
			if (md->isConst()) out << ",\"cm\":1";
			if (md->isVirtual()) out << ",\"virt\":1";
			if (md->isStatic()) out << ",\"sm\":1";
			const char* ac = md->getAccess() == AS_public ? "public" : (md->getAccess() == AS_private ? "private" : "protected");
			out << ",\"acc\":\"" << ac << "\"";
			if (md->isCopyAssignmentOperator()) out << ",\"sp\":\"copyassign\"";
			if (md->isMoveAssignmentOperator()) out << ",\"sp\":\"moveassign\"";
			if (auto cd = dyn_cast<CXXConstructorDecl>( md))
			{
				out << ",\"ctor\":1";
				if (cd->isCopyConstructor()) out << ",\"sp\":\"copyctor\"";
				else if (cd->isMoveConstructor()) out << ",\"sp\":\"movector\"";
				else if (cd->isDefaultConstructor()) out << ",\"sp\":\"defctor\"";
			}
			if (isa<CXXDestructorDecl>( md)) out << ",\"dtor\":1";
			if (md->isOverloadedOperator()) out << ",\"oper\":" << q( getOperatorSpelling( md->getOverloadedOperator()));
			std::string ov;
			for (auto o : md->overridden_methods()) { if (!ov.empty()) ov += ","; ov += q( funcKey( o)) ; }
			if (!ov.empty()) out << ",\"ovr\":[" << ov << "]";
			if (md->getParent()->isLambda())
			{
				out << ",\"lambda\":1,\"lcaps\":[";
				bool fc = true;
				for (auto const& cp : md->getParent()->captures())
				{
					if (!fc) out << ","; fc = false;
					if (cp.capturesVariable()) out << "[" << q( varId( cp.getCapturedVar())) << "," << q( ty( cp.getCapturedVar()->getType())) << "," << (cp.getCaptureKind() == LCK_ByRef ? "1":"0") << "]";
					else out << "[\"this\",\"\",1]";
				}
				out << "]";
			}
		}
		else if (fd->isOverloadedOperator()) out << ",\"oper\":" << q( getOperatorSpelling( fd->getOverloadedOperator()));
		out << ",\"p\":" << params << ",\"inits\":" << inits << ",\"body\":" << bodyid << ",\"cfg\":" << cj << ",\"nodes\":[";
		for (size_t i=0; i<nodes.json.size(); ++i) { if (i) out << ","; out << nodes.json[i]; }
		out << "]}\n";
		cur = nullptr;
	}

	bool VisitFunctionDecl( FunctionDecl* fd)
	{
		if (fd->isThisDeclarationADefinition() || fd->isDefaulted()) emitFunction( fd);
		return true;
	}
	bool VisitLambdaExpr( LambdaExpr* le)
	{
		if (le->getCallOperator()->isDependentContext()) return true;
		emitFunction( le->getCallOperator());
		return true;
	}
	bool VisitCXXRecordDecl( CXXRecordDecl* rd)
	{
		if (!rd->isThisDeclarationADefinition() || rd->isDependentContext() || rd->isLambda()) return true;
		std::string file = fileOf( rd->getLocation());
		if (file.empty()) return true;
		std::string key = ty( ctx.getRecordType( rd));
		if (!done.insert( "rec:" + key + "@" + file + ":" + std::to_string( sm.getExpansionLineNumber( rd->getLocation()))).second) return true;
		sema.ForceDeclarationOfImplicitMembers( rd);
		out << "{\"kind\":\"rec\",\"n\":" << q( key) << ",\"file\":" << q( file) << ",\"l\":" << sm.getExpansionLineNumber( rd->getLocation());
		if (!rd->isInvalidDecl()) out << ",\"size\":" << ctx.getTypeSizeInChars( ctx.getRecordType( rd)).getQuantity() << ",\"align\":" << ctx.getTypeAlignInChars( ctx.getRecordType( rd)).getQuantity();
		if (rd->isAggregate()) out << ",\"agg\":1";
		if (rd->hasTrivialDestructor()) out << ",\"tdtor\":1";
		out << ",\"bases\":[";
		bool first = true;
		for (auto const& b : rd->bases()) { if (!first) out << ","; first = false; out << q( ty( b.getType())); }
		out << "],\"fields\":[";
		first = true;
		for (auto f : rd->fields())
		{
			if (!first) out << ","; first = false;
			out << "{\"n\":" << q( f->getNameAsString()) << ",\"t\":" << q( ty( f->getType())) << ",\"l\":" << sm.getExpansionLineNumber( f->getLocation());
			std::string ii = intInfo( f->getType());
			if (!ii.empty()) out << ",\"ti\":" << ii;
			if (f->hasInClassInitializer()) out << ",\"init\":1";
			if (f->isMutable()) out << ",\"mut\":1";
			QualType ft = f->getType().getCanonicalType();
			bool scalar = ft->isScalarType() || (ft->isArrayType() && ctx.getBaseElementType( ft)->isScalarType());
			if (scalar) out << ",\"sc\":1";
			if (auto frd = ft->getBaseElementTypeUnsafe()->getAsCXXRecordDecl()) if (frd->hasDefinition()) { if (frd->hasTrivialDefaultConstructor() ) out << ",\"tdc\":1"; if (!frd->hasTrivialDestructor()) out << ",\"ntd\":1";}
			if (f->isBitField()) out << ",\"bf\":" << f->getBitWidthValue( ctx);
			out << "}";
		}
		out << "],\"methods\":[";
		first = true;
		for (auto m : rd->methods())
		{
			if (!first) out << ","; first = false;
			out << "{\"n\":" << q( m->getNameAsString()) << ",\"key\":" << q( funcKey( m));
			const char* ac = m->getAccess() == AS_public ? "public" : (m->getAccess() == AS_private ? "private" : "protected");
			out << ",\"acc\":\"" << ac << "\"";
			if (m->isConst()) out << ",\"cm\":1";
			if (m->isStatic()) out << ",\"sm\":1";
			if (m->isDeleted()) out << ",\"del\":1";
			if (m->isDefaulted()) out << ",\"dflt\":1";
			if (m->isImplicit()) out << ",\"impl\":1";
			if (m->isUserProvided()) out << ",\"up\":1";
			if (!canThrow( m->getType(), m)) out << ",\"nx\":1";
			if (m->isCopyAssignmentOperator()) out << ",\"sp\":\"copyassign\"";
			else if (m->isMoveAssignmentOperator()) out << ",\"sp\":\"moveassign\"";
			else if (auto cd = dyn_cast<CXXConstructorDecl>( m))
			{
				out << ",\"ctor\":1";
				if (cd->isCopyConstructor()) out << ",\"sp\":\"copyctor\"";
				else if (cd->isMoveConstructor()) out << ",\"sp\":\"movector\"";
				else if (cd->isDefaultConstructor()) out << ",\"sp\":\"defctor\"";
			}
			else if (isa<CXXDestructorDecl>( m)) out << ",\"sp\":\"dtor\"";
			out << "}";
		}
		out << "]}\n";
		return true;
	}
	bool VisitEnumDecl( EnumDecl* ed)
	{
		if (!ed->isThisDeclarationADefinition() || ed->isDependentContext()) return true;
		std::string file = fileOf( ed->getLocation());
		if (file.empty()) return true;
		std::string key = ty( ctx.getEnumType( ed));
		if (!done.insert( "enum:" + key + "@" + file + ":" + std::to_string( sm.getExpansionLineNumber( ed->getLocation()))).second) return true;
		out << "{\"kind\":\"enum\",\"n\":" << q( key) << ",\"file\":" << q( file) << ",\"l\":" << sm.getExpansionLineNumber( ed->getLocation()) << ",\"e\":[";
		bool first = true;
		for (auto e : ed->enumerators())
		{
			if (!first) out << ","; first = false;
			llvm::SmallString<32> sv; e->getInitVal().toString( sv, 10);
			out << "[" << q( qualName( e)) << "," << sv << "," << sm.getExpansionLineNumber( e->getLocation()) << "]";
		}
		out << "]}\n";
		return true;
	}
	bool VisitVarDecl( VarDecl* vd)
	{
		if (!vd->hasGlobalStorage() || isa<ParmVarDecl>( vd)) return true;
		if (vd->getDeclContext()->isDependentContext() || vd->getType()->isDependentType()) return true;
		std::string file = fileOf( vd->getLocation());
		if (file.empty()) return true;
		Nodes nodes; Nodes* save = cur; cur = &nodes; auto saveTry = tryStack; tryStack.clear();
		int init = -1;
		if (vd->getInit() && !vd->getInit()->isValueDependent()) init = emit( const_cast<Expr*>( vd->getInit()));
		std::string id;
		if (vd->isStaticLocal())
		{
			auto pf = dyn_cast_or_null<FunctionDecl>( vd->getParentFunctionOrMethod());
			id = "S:" + (pf ? funcKey( pf) : std::string("?")) + ":" + vd->getNameAsString();
		}
		else id = varId( vd);
		if (done.insert( "var:" + id + (vd->isThisDeclarationADefinition() ? ":def":":decl")).second)
		{
			out << "{\"kind\":\"var\",\"v\":" << q( id) << ",\"qn\":" << q( qualName( vd)) << ",\"n\":" << q( vd->getNameAsString()) << ",\"t\":" << q( ty( vd->getType())) << ",\"file\":" << q( file) << ",\"l\":" << sm.getExpansionLineNumber( vd->getLocation());
			if (vd->isStaticLocal()) out << ",\"slocal\":1";
			if (vd->getTSCSpec() != TSCS_unspecified) out << ",\"tls\":1";
			if (vd->isThisDeclarationADefinition()) out << ",\"def\":1";
			if (vd->isConstexpr()) out << ",\"constexpr\":1";
			QualType bt = ctx.getBaseElementType( vd->getType());
			if (bt.isConstQualified() || vd->getType().isConstQualified()) out << ",\"const\":1";
			out << ",\"init\":" << init << ",\"nodes\":[";
			for (size_t i=0; i<nodes.json.size(); ++i) { if (i) out << ","; out << nodes.json[i]; }
			out << "]}\n";
		}
		cur = save; tryStack = saveTry;
		return true;
	}

private:
	ASTContext& ctx;
	SourceManager& sm;
	Sema& sema;
	llvm::raw_ostream& out;
	ASTNameGenerator names;
	PrintingPolicy pp;
	std::map<const FunctionDecl*,std::string> keycache;
	std::map<const Decl*,int> localids;
	int localcnt = 0;
	std::set<std::string> done;
};

class Consumer :public ASTConsumer
{
public:
	Consumer( CompilerInstance& ci_) :ci(ci_){}
	void HandleTranslationUnit( ASTContext& ctx) override
	{
		if (ci.getDiagnostics().hasErrorOccurred()) return;
		std::error_code ec;
		llvm::raw_fd_ostream out( g_out, ec);
		Extractor ex( ctx, ci.getSema(), out);
		ex.TraverseDecl( ctx.getTranslationUnitDecl());
		out << "{\"kind\":\"end\"}\n";
	}
private:
	CompilerInstance& ci;
};

class Action :public ASTFrontendAction
{
public:
	std::unique_ptr<ASTConsumer> CreateASTConsumer( CompilerInstance& ci, llvm::StringRef) override
	{
		return std::make_unique<Consumer>( ci);
	}
};

int main( int argc, const char** argv)
{
	if (argc < 5) { llvm::errs() << "usage: mewafacts ROOT FILE OUT -- ARGS\n"; return 2; }
	g_root = argv[1];
	std::string file = argv[2];
	g_out = argv[3];
	std::vector<std::string> args;
	for (int i=5; i<argc; ++i) args.push_back( argv[i]);
	tooling::FixedCompilationDatabase db( ".", args);
	tooling::ClangTool tool( db, {file});
	return tool.run( tooling::newFrontendActionFactory<Action>().get());
}
