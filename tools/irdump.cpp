// irdump: LLVM bitcode -> JSON program model (functions, CFG, instructions, debug types, globals, vtables).
// Built by /verif/setup.sh, linked with the installed libLLVM-18.
#include <llvm/IR/Module.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/DebugInfo.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Support/JSON.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/BinaryFormat/Dwarf.h>
#include <map>
#include <set>
#include <string>
#include <vector>
using namespace llvm;

static raw_ostream *OS;
static const DataLayout *DL;
static std::map<const DIType *, int> tyid;
static std::vector<const DIType *> tys;
static std::map<std::string, int> fileid;
static std::vector<std::string> files;

static int tid(const DIType *t) {
	if (!t) return -1;
	auto it = tyid.find(t);
	if (it != tyid.end()) return it->second;
	int n = (int)tys.size();
	tyid[t] = n;
	tys.push_back(t);
	return n;
}
static int fid(const DIFile *f) {
	if (!f) return -1;
	std::string s = f->getFilename().str();
	if (!s.empty() && s[0] != '/' && !f->getDirectory().empty()) s = f->getDirectory().str() + "/" + s;
	auto it = fileid.find(s);
	if (it != fileid.end()) return it->second;
	int n = (int)files.size();
	fileid[s] = n;
	files.push_back(s);
	return n;
}
static std::string esc(StringRef s) {
	std::string out;
	raw_string_ostream o(out);
	o << '"';
	for (unsigned char c : s) {
		if (c == '"' || c == '\\') o << '\\' << c;
		else if (c < 0x20 || c >= 0x7f) o << format("\\u%04x", (unsigned)c);
		else o << c;
	}
	o << '"';
	return o.str();
}
static std::string scopeName(const DIScope *s) {
	if (!s) return "";
	std::string up;
	if (isa<DINamespace>(s) || isa<DIType>(s)) up = scopeName(s->getScope());
	else if (auto *sp = dyn_cast<DISubprogram>(s)) {
		return demangle(sp->getLinkageName().empty() ? sp->getName().str() : sp->getLinkageName().str()) ;
	} else if (isa<DILexicalBlockBase>(s)) return scopeName(s->getScope());
	else return "";
	std::string n = s->getName().str();
	if (n.empty()) n = isa<DINamespace>(s) ? "(anonymous namespace)" : "(anon)";
	return up.empty() ? n : up + "::" + n;
}

struct FnCtx {
	std::map<const Value *, int> id;
	int of(const Value *v) {
		auto it = id.find(v);
		if (it != id.end()) return it->second;
		int n = (int)id.size();
		id[v] = n;
		return n;
	}
};

static std::string tyStr(Type *t) {
	if (t->isIntegerTy()) return "i" + std::to_string(t->getIntegerBitWidth());
	if (t->isPointerTy()) return "p";
	if (t->isVoidTy()) return "v";
	if (t->isFloatTy()) return "f32";
	if (t->isDoubleTy()) return "f64";
	if (t->isX86_FP80Ty()) return "f80";
	if (auto *st = dyn_cast<StructType>(t)) return st->hasName() ? ("%" + st->getName().str()) : "struct";
	if (t->isArrayTy()) return "array";
	if (t->isVectorTy()) return "vec";
	return "?";
}

static void val(FnCtx *fc, const Value *v);

static void cst(const Constant *c) {
	raw_ostream &o = *OS;
	if (auto *ci = dyn_cast<ConstantInt>(c)) {
		SmallString<40> s;
		ci->getValue().toStringUnsigned(s);
		o << "[\"c\"," << s << "," << ci->getBitWidth() << "]";
		return;
	}
	if (isa<ConstantPointerNull>(c)) { o << "[\"null\"]"; return; }
	if (isa<UndefValue>(c)) { o << "[\"undef\"]"; return; }
	if (isa<ConstantAggregateZero>(c)) { o << "[\"zero\"]"; return; }
	if (auto *cf = dyn_cast<ConstantFP>(c)) {
		SmallString<40> s;
		cf->getValueAPF().toString(s);
		o << "[\"cf\"," << esc(s) << "]";
		return;
	}
	if (auto *f = dyn_cast<Function>(c)) { o << "[\"f\"," << esc(f->getName()) << "]"; return; }
	if (auto *ga = dyn_cast<GlobalAlias>(c)) { cst(ga->getAliasee()); return; }
	if (auto *g = dyn_cast<GlobalVariable>(c)) { o << "[\"g\"," << esc(g->getName()) << ",0]"; return; }
	if (auto *ce = dyn_cast<ConstantExpr>(c)) {
		if (ce->getOpcode() == Instruction::GetElementPtr || ce->getOpcode() == Instruction::BitCast) {
			APInt off(64, 0);
			const Value *b = ce->stripAndAccumulateConstantOffsets(*DL, off, true);
			if (auto *g = dyn_cast<GlobalVariable>(b)) {
				o << "[\"g\"," << esc(g->getName()) << "," << off.getSExtValue() << "]";
				return;
			}
			if (auto *f = dyn_cast<Function>(b)) { o << "[\"f\"," << esc(f->getName()) << "]"; return; }
		}
		if (ce->getOpcode() == Instruction::PtrToInt) { cst(ce->getOperand(0)); return; }
		if (ce->getOpcode() == Instruction::IntToPtr) { cst(ce->getOperand(0)); return; }
		o << "[\"ce\"," << esc(ce->getOpcodeName()) << "]";
		return;
	}
	if (auto *ag = dyn_cast<ConstantAggregate>(c)) {
		o << "[\"agg\"";
		for (auto &op : ag->operands()) { o << ","; cst(cast<Constant>(op)); }
		o << "]";
		return;
	}
	if (auto *cd = dyn_cast<ConstantDataSequential>(c)) {
		o << "[\"agg\"";
		for (unsigned i = 0; i != cd->getNumElements(); ++i) { o << ","; cst(cd->getElementAsConstant(i)); }
		o << "]";
		return;
	}
	o << "[\"?\"]";
}
static void val(FnCtx *fc, const Value *v) {
	raw_ostream &o = *OS;
	if (auto *c = dyn_cast<Constant>(v)) { cst(c); return; }
	if (isa<BasicBlock>(v)) { o << "[\"bb\"]"; return; }
	if (isa<MetadataAsValue>(v)) { o << "[\"md\"]"; return; }
	if (isa<InlineAsm>(v)) { o << "[\"asm\"]"; return; }
	o << fc->of(v);
}

static void initFlat(const Constant *c, uint64_t off, bool &first) {
	raw_ostream &o = *OS;
	if (isa<ConstantAggregateZero>(c)) {
		o << (first ? "" : ",") << "[" << off << "," << DL->getTypeAllocSize(c->getType()) << ",[\"zero\"]]";
		first = false;
		return;
	}
	if (auto *cd = dyn_cast<ConstantDataSequential>(c)) {
		o << (first ? "" : ",") << "[" << off << "," << DL->getTypeAllocSize(c->getType()) << ",[\"data\"," << cd->getElementByteSize() << ",\"";
		StringRef r = cd->getRawDataValues();
		for (unsigned char ch : r) o << format("%02x", (unsigned)ch);
		o << "\"]]";
		first = false;
		return;
	}
	if (auto *ca = dyn_cast<ConstantArray>(c)) {
		uint64_t es = DL->getTypeAllocSize(ca->getType()->getElementType());
		for (unsigned i = 0; i != ca->getNumOperands(); ++i) initFlat(ca->getOperand(i), off + es * i, first);
		return;
	}
	if (auto *cs = dyn_cast<ConstantStruct>(c)) {
		auto *sl = DL->getStructLayout(cs->getType());
		for (unsigned i = 0; i != cs->getNumOperands(); ++i) initFlat(cs->getOperand(i), off + sl->getElementOffset(i), first);
		return;
	}
	o << (first ? "" : ",") << "[" << off << "," << DL->getTypeAllocSize(c->getType()) << ",";
	cst(c);
	o << "]";
	first = false;
}

static void dumpInst(FnCtx &fc, const Instruction &I, std::map<const BasicBlock *, int> &bbid) {
	raw_ostream &o = *OS;
	o << "{\"o\":\"" << I.getOpcodeName() << "\"";
	if (!I.getType()->isVoidTy()) o << ",\"d\":" << fc.of(&I) << ",\"t\":" << esc(tyStr(I.getType()));
	if (auto &loc = I.getDebugLoc()) {
		o << ",\"l\":[" << fid(loc->getFile()) << "," << loc.getLine() << "," << loc.getCol() << "]";
	}
	auto ops = [&](unsigned from, unsigned to) {
		o << ",\"a\":[";
		for (unsigned i = from; i != to; ++i) { if (i != from) o << ","; val(&fc, I.getOperand(i)); }
		o << "]";
	};
	if (auto *x = dyn_cast<AllocaInst>(&I)) {
		o << ",\"sz\":" << (uint64_t)DL->getTypeAllocSize(x->getAllocatedType()) << ",\"at\":" << esc(tyStr(x->getAllocatedType()));
		auto decls = findDbgDeclares(const_cast<AllocaInst *>(x));
		for (auto *dv : decls) {
			o << ",\"vn\":" << esc(dv->getVariable()->getName()) << ",\"vt\":" << tid(dv->getVariable()->getType());
			break;
		}
	} else if (auto *x = dyn_cast<LoadInst>(&I)) {
		ops(0, 1);
		o << ",\"sz\":" << (uint64_t)DL->getTypeStoreSize(x->getType());
		if (x->isAtomic()) o << ",\"at\":1";
		if (x->isVolatile()) o << ",\"vol\":1";
	} else if (auto *x = dyn_cast<StoreInst>(&I)) {
		ops(0, 2);
		o << ",\"sz\":" << (uint64_t)DL->getTypeStoreSize(x->getValueOperand()->getType()) << ",\"st\":" << esc(tyStr(x->getValueOperand()->getType()));
		if (x->isAtomic()) o << ",\"at\":1";
	} else if (auto *x = dyn_cast<GetElementPtrInst>(&I)) {
		unsigned bits = DL->getIndexTypeSizeInBits(x->getType());
		MapVector<Value *, APInt> var;
		APInt c(bits, 0);
		if (!x->collectOffset(*DL, bits, var, c)) { o << ",\"bad\":1"; }
		ops(0, 1);
		o << ",\"off\":" << c.getSExtValue() << ",\"vo\":[";
		bool f = true;
		for (auto &p : var) { o << (f ? "" : ",") << "["; val(&fc, p.first); o << "," << p.second.getSExtValue() << "]"; f = false; }
		o << "],\"st\":" << esc(tyStr(x->getSourceElementType()));
	} else if (auto *x = dyn_cast<CmpInst>(&I)) {
		o << ",\"p\":\"" << CmpInst::getPredicateName(x->getPredicate()) << "\",\"ot\":" << esc(tyStr(x->getOperand(0)->getType()));
		ops(0, 2);
	} else if (auto *x = dyn_cast<BranchInst>(&I)) {
		if (x->isConditional()) { o << ",\"c\":"; val(&fc, x->getCondition()); o << ",\"s\":[" << bbid[x->getSuccessor(0)] << "," << bbid[x->getSuccessor(1)] << "]"; }
		else o << ",\"s\":[" << bbid[x->getSuccessor(0)] << "]";
	} else if (auto *x = dyn_cast<SwitchInst>(&I)) {
		o << ",\"c\":"; val(&fc, x->getCondition());
		o << ",\"df\":" << bbid[x->getDefaultDest()] << ",\"cs\":[";
		bool f = true;
		for (auto &cs : x->cases()) { o << (f ? "" : ",") << "["; SmallString<40> s; cs.getCaseValue()->getValue().toStringUnsigned(s); o << s << "," << bbid[cs.getCaseSuccessor()] << "]"; f = false; }
		o << "]";
	} else if (auto *x = dyn_cast<PHINode>(&I)) {
		o << ",\"in\":[";
		for (unsigned i = 0; i != x->getNumIncomingValues(); ++i) { o << (i ? "," : "") << "["; val(&fc, x->getIncomingValue(i)); o << "," << bbid[x->getIncomingBlock(i)] << "]"; }
		o << "]";
	} else if (auto *x = dyn_cast<CallBase>(&I)) {
		const Value *cv = x->getCalledOperand()->stripPointerCasts();
		o << ",\"f\":"; val(&fc, cv);
		o << ",\"a\":[";
		for (unsigned i = 0; i != x->arg_size(); ++i) { o << (i ? "," : ""); val(&fc, x->getArgOperand(i)); }
		o << "],\"ta\":[";
		for (unsigned i = 0; i != x->arg_size(); ++i) { o << (i ? "," : "") << esc(tyStr(x->getArgOperand(i)->getType())); }
		o << "]";
		if (x->arg_size() && x->paramHasAttr(0, Attribute::StructRet)) o << ",\"sret\":1";
		if (x->doesNotThrow()) o << ",\"nt\":1";
		if (x->doesNotReturn()) o << ",\"nr\":1";
		if (auto *iv = dyn_cast<InvokeInst>(&I)) o << ",\"s\":[" << bbid[iv->getNormalDest()] << "," << bbid[iv->getUnwindDest()] << "]";
	} else if (auto *x = dyn_cast<LandingPadInst>(&I)) {
		o << ",\"cl\":" << (x->isCleanup() ? 1 : 0) << ",\"cc\":[";
		for (unsigned i = 0; i != x->getNumClauses(); ++i) { o << (i ? "," : "") << "[" << (x->isCatch(i) ? 1 : 0) << ","; cst(x->getClause(i)); o << "]"; }
		o << "]";
	} else if (auto *x = dyn_cast<ExtractValueInst>(&I)) {
		ops(0, 1);
		o << ",\"ix\":[";
		for (unsigned i = 0; i != x->getNumIndices(); ++i) o << (i ? "," : "") << x->getIndices()[i];
		o << "]";
	} else if (auto *x = dyn_cast<InsertValueInst>(&I)) {
		ops(0, 2);
		o << ",\"ix\":[";
		for (unsigned i = 0; i != x->getNumIndices(); ++i) o << (i ? "," : "") << x->getIndices()[i];
		o << "]";
	} else if (auto *x = dyn_cast<AtomicRMWInst>(&I)) {
		ops(0, 2);
		o << ",\"rmw\":\"" << AtomicRMWInst::getOperationName(x->getOperation()) << "\"";
	} else {
		ops(0, I.getNumOperands());
		if (isa<CastInst>(&I) ) o << ",\"ot\":" << esc(tyStr(I.getOperand(0)->getType()));
		if (auto *ob = dyn_cast<OverflowingBinaryOperator>(&I)) { if (ob->hasNoSignedWrap()) o << ",\"nsw\":1"; }
	}
	o << "}";
}

int main(int argc, char **argv) {
	LLVMContext ctx;
	SMDiagnostic err;
	auto M = parseIRFile(argv[1], err, ctx);
	if (!M) { err.print("irdump", errs()); return 2; }
	DL = &M->getDataLayout();
	std::error_code ec;
	raw_fd_ostream out(argv[2], ec);
	OS = &out;
	raw_ostream &o = out;
	o << "{\"functions\":[\n";
	bool ff = true;
	for (auto &F : *M) {
		if (F.isIntrinsic() && F.getName().starts_with("llvm.dbg")) continue;
		o << (ff ? "" : ",\n");
		ff = false;
		o << "{\"n\":" << esc(F.getName()) << ",\"dm\":" << esc(demangle(F.getName().str()));
		if (F.hasLocalLinkage()) o << ",\"int\":1";
		o << ",\"ret\":" << esc(tyStr(F.getReturnType()));
		if (F.doesNotThrow()) o << ",\"nt\":1";
		if (F.isVarArg()) o << ",\"va\":1";
		if (auto *sp = F.getSubprogram()) {
			o << ",\"l\":[" << fid(sp->getFile()) << "," << sp->getLine() << "],\"bn\":" << esc(sp->getName());
			auto *decl = sp->getDeclaration();
			const DISubprogram *d = decl ? decl : sp;
			unsigned acc = d->getFlags() & DINode::FlagAccessibility;
			int a = acc == DINode::FlagPrivate ? 1 : acc == DINode::FlagProtected ? 2 : acc == DINode::FlagPublic ? 3 : 0;
			const DIScope *sc = d->getScope();
			if (a == 0 && sc) {
				if (auto *ct = dyn_cast<DICompositeType>(sc)) a = ct->getTag() == dwarf::DW_TAG_class_type ? 1 : 3;
			}
			o << ",\"acc\":" << a << ",\"sc\":" << esc(scopeName(sc));
			if (auto *ct = dyn_cast_or_null<DIType>(sc)) o << ",\"sct\":" << tid(ct);
			if (d->isArtificial()) o << ",\"art\":1";
			if (d->getVirtuality()) o << ",\"virt\":1";
			if (auto *st = sp->getType()) {
				o << ",\"dt\":[";
				bool f1 = true;
				for (auto *t : st->getTypeArray()) { o << (f1 ? "" : ",") << tid(t); f1 = false; }
				o << "]";
			}
		}
		FnCtx fc;
		o << ",\"args\":[";
		for (auto &A : F.args()) {
			o << (A.getArgNo() ? "," : "") << "{\"i\":" << fc.of(&A) << ",\"t\":" << esc(tyStr(A.getType()));
			if (A.hasName()) o << ",\"nm\":" << esc(A.getName());
			if (A.hasStructRetAttr()) o << ",\"sret\":1";
			if (A.hasByValAttr()) o << ",\"byval\":" << (uint64_t)DL->getTypeAllocSize(A.getParamByValType());
			o << "}";
		}
		o << "]";
		if (!F.isDeclaration()) {
			std::map<const BasicBlock *, int> bbid;
			int n = 0;
			for (auto &B : F) bbid[&B] = n++;
			o << ",\"bb\":[";
			bool fb = true;
			for (auto &B : F) {
				o << (fb ? "" : ",") << "\n[";
				fb = false;
				bool fi = true;
				for (auto &I : B) {
					if (isa<DbgInfoIntrinsic>(&I)) continue;
					o << (fi ? "" : ",");
					fi = false;
					dumpInst(fc, I, bbid);
				}
				o << "]";
			}
			o << "]";
		}
		o << "}";
	}
	o << "],\n\"globals\":{";
	bool fg = true;
	for (auto &G : M->globals()) {
		o << (fg ? "" : ",\n") << esc(G.getName()) << ":{\"dm\":" << esc(demangle(G.getName().str())) << ",\"const\":" << (G.isConstant() ? 1 : 0) << ",\"tls\":" << (G.isThreadLocal() ? 1 : 0) << ",\"sz\":" << (G.getValueType()->isSized() ? (uint64_t)DL->getTypeAllocSize(G.getValueType()) : 0);
		fg = false;
		SmallVector<DIGlobalVariableExpression *, 1> gv;
		G.getDebugInfo(gv);
		for (auto *e : gv) { o << ",\"dt\":" << tid(e->getVariable()->getType()) << ",\"l\":[" << fid(e->getVariable()->getFile()) << "," << e->getVariable()->getLine() << "]"; break; }
		if (G.hasInitializer()) {
			o << ",\"init\":[";
			bool f = true;
			initFlat(G.getInitializer(), 0, f);
			o << "]";
		}
		o << "}";
	}
	o << "},\n\"retained\":[";
	{
		bool f = true;
		for (auto *CU : M->debug_compile_units()) {
			for (auto *e : CU->getEnumTypes()) { o << (f ? "" : ",") << tid(e); f = false; }
			for (auto *r : CU->getRetainedTypes()) if (auto *t = dyn_cast<DIType>(r)) { o << (f ? "" : ",") << tid(t); f = false; }
		}
	}
	o << "],\n\"types\":[\n";
	for (size_t i = 0; i < tys.size(); ++i) {
		const DIType *t = tys[i];
		o << (i ? ",\n" : "") << "{\"n\":" << esc(t->getName()) << ",\"q\":" << esc(scopeName(t)) << ",\"sz\":" << t->getSizeInBits() / 8;
		if (auto *b = dyn_cast<DIBasicType>(t)) {
			o << ",\"k\":\"base\",\"enc\":" << b->getEncoding();
		} else if (auto *d = dyn_cast<DIDerivedType>(t)) {
			o << ",\"k\":\"" << dwarf::TagString(d->getTag()).substr(7) << "\",\"b\":" << tid(d->getBaseType());
		} else if (auto *c = dyn_cast<DICompositeType>(t)) {
			o << ",\"k\":\"" << dwarf::TagString(c->getTag()).substr(7) << "\",\"b\":" << tid(c->getBaseType()) << ",\"decl\":" << (c->isForwardDecl() ? 1 : 0) << ",\"l\":[" << fid(c->getFile()) << "," << c->getLine() << "]";
			o << ",\"tp\":[";
			bool f = true;
			for (auto *tp : c->getTemplateParams()) {
				if (auto *tt = dyn_cast<DITemplateTypeParameter>(tp)) { o << (f ? "" : ",") << tid(tt->getType()); f = false; }
			}
			o << "],\"m\":[";
			f = true;
			for (auto *e : c->getElements()) {
				if (auto *en = dyn_cast<DIEnumerator>(e)) {
					SmallString<40> s;
					en->getValue().toString(s, 10, !en->isUnsigned());
					o << (f ? "" : ",") << "[\"e\"," << esc(en->getName()) << "," << s << "]";
					f = false;
				} else if (auto *m = dyn_cast<DIDerivedType>(e)) {
					bool st = m->isStaticMember();
					unsigned acc = m->getFlags() & DINode::FlagAccessibility;
					o << (f ? "" : ",") << "[\"" << (m->getTag() == dwarf::DW_TAG_inheritance ? "b" : st ? "s" : "m") << "\"," << esc(m->getName()) << "," << m->getOffsetInBits() / 8 << "," << m->getSizeInBits() / 8 << "," << tid(m->getBaseType()) << "," << acc << "," << m->getLine() << "]";
					f = false;
				} else if (auto *sr = dyn_cast<DISubrange>(e)) {
					int64_t cnt = -1;
					if (auto *ci = dyn_cast_if_present<ConstantInt *>(sr->getCount())) cnt = ci->getSExtValue();
					o << (f ? "" : ",") << "[\"r\"," << cnt << "]";
					f = false;
				} else if (auto *spx = dyn_cast<DISubprogram>(e)) {
					unsigned acc = spx->getFlags() & DINode::FlagAccessibility;
					int a = acc == DINode::FlagPrivate ? 1 : acc == DINode::FlagProtected ? 2 : acc == DINode::FlagPublic ? 3 : (c->getTag() == dwarf::DW_TAG_class_type ? 1 : 3);
					o << (f ? "" : ",") << "[\"f\"," << esc(spx->getName()) << "," << esc(spx->getLinkageName()) << "," << a << "," << (spx->isDeleted() ? 1 : 0) << "]";
					f = false;
				}
			}
			o << "]";
		} else if (auto *s = dyn_cast<DISubroutineType>(t)) {
			o << ",\"k\":\"fn\",\"m\":[";
			bool f = true;
			for (auto *x : s->getTypeArray()) { o << (f ? "" : ",") << tid(x); f = false; }
			o << "]";
		}
		o << "}";
	}
	o << "],\n\"files\":[";
	for (size_t i = 0; i < files.size(); ++i) o << (i ? "," : "") << esc(files[i]);
	o << "]}\n";
	return 0;
}
