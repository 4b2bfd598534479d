// irx: prepares LLVM IR of /repo's library code for the rule engine.
//
//   irx IN.ll --keep REGEX... --inline REGEX... --roots REGEX [--unwind] > OUT.json
//
// 1. Every function defined in namespace common_robotics_utilities is marked
//    for inlining, unless its demangled name matches a --keep expression, is
//    (mutually) recursive, or is varargs; std:: and Eigen:: functions remain
//    opaque calls unless they match an --inline expression.  Helpers that a
//    refactoring extracts therefore disappear again.
// 2. Unwind edges are dropped (unless --unwind), locals go to SSA form.
// 3. The root functions are written as JSON: blocks, instructions, operands,
//    callees (demangled), constant offsets of address computations, and the
//    source position of each instruction (with its inlining chain).
//
// Nothing is executed.
#include <llvm/ADT/SCCIterator.h>
#include <llvm/Analysis/CallGraph.h>
#include <llvm/BinaryFormat/Dwarf.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DebugInfo.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/IRBuilder.h>
#include <llvm/IR/InstIterator.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Passes/PassBuilder.h>
#include <llvm/Support/JSON.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>

#include <boost/regex.hpp>

#include <map>
#include <set>
#include <string>
#include <vector>

using namespace llvm;

static std::string Dem(StringRef n) { return demangle(n.str()); }

static std::string TypeStr(Type* t)
{
  std::string s;
  raw_string_ostream os(s);
  t->print(os, false, true);
  return s;
}

struct Options
{
  std::string in;
  std::vector<boost::regex> keep, inl, roots;
  bool unwind = false, reach = false;
  std::string passes =
      "sroa<modify-cfg>,simplifycfg,early-cse<memssa>,instsimplify,"
      "sroa<modify-cfg>,simplifycfg,gvn<no-pre;no-load-pre>,instsimplify,"
      "simplifycfg,early-cse<memssa>,loop-simplify,dce";
};

static bool AnyOf(const std::vector<boost::regex>& v, const std::string& s)
{
  for (const auto& r : v) if (boost::regex_search(s, r)) return true;
  return false;
}

// Strips a leading return type / "non-virtual thunk" so that the namespace test
// sees the function's own qualified name.
static std::string QualName(const std::string& dem)
{
  // Find the '(' that opens the parameter list of the outermost function, while
  // skipping template argument lists.
  int depth = 0;
  size_t start = 0;
  for (size_t i = 0; i < dem.size(); i++)
  {
    const char c = dem[i];
    if (c == '<' )
    {
      // operator< and operator<<
      if (i >= 8 && dem.compare(i - 8, 8, "operator") == 0 && depth == 0)
      { if (i + 1 < dem.size() && dem[i + 1] == '<') i++; continue; }
      depth++;
    }
    else if (c == '>')
    {
      if (i >= 8 && dem.compare(i - 8, 8, "operator") == 0 && depth == 0)
      { if (i + 1 < dem.size() && dem[i + 1] == '>') i++; continue; }
      if (i >= 1 && dem[i - 1] == '-') continue;
      if (depth > 0) depth--;
    }
    else if (depth == 0 && c == '(')
    {
      // "(anonymous namespace)" and lambda "{lambda(...)#1}" are part of names.
      if (dem.compare(i, 21, "(anonymous namespace)") == 0) { i += 20; continue; }
      if (i >= 7 && dem.compare(i - 7, 7, "{lambda") == 0)
      {
        int d = 0;
        for (; i < dem.size(); i++)
        { if (dem[i] == '(') d++; if (dem[i] == ')') { d--; if (d == 0) break; } }
        continue;
      }
      if (i >= 8 && dem.compare(i - 8, 8, "operator") == 0 && i + 1 < dem.size()
          && dem[i + 1] == ')') { i++; continue; }
      // Skip parameter lists of enclosing functions: "f(int)::{lambda...".
      int d = 0;
      size_t j = i;
      for (; j < dem.size(); j++)
      { if (dem[j] == '(') d++; if (dem[j] == ')') { d--; if (d == 0) break; } }
      size_t k = j + 1;
      if (dem.compare(k, 6, " const") == 0) k += 6;
      if (dem.compare(k, 2, "::") == 0) { i = k; continue; }
      return dem.substr(start, i - start);
    }
    else if (depth == 0 && c == ' ')
    {
      if (dem.compare(start, 8, "operator") != 0
          && (i < 8 || dem.compare(i - 8, 8, "operator") != 0))
        start = i + 1;
    }
  }
  return dem.substr(start);
}

// Removes template argument lists.
static std::string Strip(const std::string& s)
{
  std::string out;
  int d = 0;
  for (size_t k = 0; k < s.size(); k++)
  {
    const char c = s[k];
    const bool op = d == 0 && out.size() >= 8
        && (out.compare(out.size() - 8, 8, "operator") == 0
            || (out.size() >= 9 && out.compare(out.size() - 9, 8, "operator") == 0
                && (out.back() == '<' || out.back() == '>' || out.back() == '-')));
    if (c == '<' && !op) d++;
    else if (c == '>' && d > 0 && s[k - 1] != '-') d--;
    else if (d == 0) out += c;
  }
  return out;
}

static bool InLibrary(const std::string& qual)
{
  return qual.rfind("common_robotics_utilities::", 0) == 0;
}

class Dumper
{
public:
  Dumper(Module& m, json::OStream& j)
      : m_(m), dl_(m.getDataLayout()), j_(j) {}

  void Structs()
  {
    // Member names from the debug info, keyed by qualified type name.
    DebugInfoFinder f;
    f.processModule(m_);
    j_.attributeArray("globals", [&] {
      for (auto* e : f.global_variables())
      {
        auto* v = e->getVariable();
        if (!v || !v->isDefinition()) continue;
        const DIScope* sc = v->getScope();
        if (auto* d = v->getStaticDataMemberDeclaration()) sc = d->getScope();
        const std::string q = Scope(sc) + v->getName().str();
        if (q.find("common_robotics_utilities") == std::string::npos) continue;
        j_.object([&] {
          j_.attribute("name", q);
          j_.attribute("type", TypeName(v->getType()));
          j_.attribute("line", static_cast<int64_t>(v->getLine()));
          if (v->getFile()) j_.attribute("file", Full(v->getFile()->getDirectory(), v->getFile()->getFilename()));
        });
      }
    });
    j_.attributeArray("types", [&] {
      for (auto* t : f.types())
      {
        auto* c = dyn_cast<DICompositeType>(t);
        if (!c || c->getName().empty()) continue;
        if (c->getTag() != dwarf::DW_TAG_class_type
            && c->getTag() != dwarf::DW_TAG_structure_type
            && c->getTag() != dwarf::DW_TAG_union_type) continue;
        if (c->isForwardDecl()) continue;
        const std::string q = Scope(c->getScope()) + c->getName().str();
        if (q.rfind("common_robotics_utilities", 0) != 0) continue;
        j_.object([&] {
          j_.attribute("name", q);
          j_.attribute("size", static_cast<int64_t>(c->getSizeInBits() / 8));
          j_.attribute("byvalue", static_cast<bool>(c->getFlags() & DINode::FlagTypePassByValue));
          if (c->getFile())
            j_.attribute("file", Full(c->getFile()->getDirectory(), c->getFile()->getFilename()));
          j_.attribute("line", static_cast<int64_t>(c->getLine()));
          j_.attributeArray("members", [&] {
            for (auto* e : c->getElements())
            {
              auto* d = dyn_cast_or_null<DIDerivedType>(e);
              if (!d) continue;
              if (d->getTag() != dwarf::DW_TAG_member
                  && d->getTag() != dwarf::DW_TAG_inheritance) continue;
              if (d->isStaticMember()) continue;
              j_.array([&] {
                j_.value(d->getTag() == dwarf::DW_TAG_inheritance
                             ? std::string("<base>") : d->getName().str());
                j_.value(static_cast<int64_t>(d->getOffsetInBits() / 8));
                j_.value(TypeName(d->getBaseType()));
                j_.value(static_cast<int64_t>(Size(d->getBaseType())));
              });
            }
          });
        });
      }
    });
  }

  static std::string Full(StringRef dir, StringRef name)
  {
    if (name.starts_with("/") || dir.empty()) return name.str();
    return dir.str() + "/" + name.str();
  }

  static uint64_t Size(const DIType* t)
  {
    while (t)
    {
      if (t->getSizeInBits()) return t->getSizeInBits() / 8;
      auto* d = dyn_cast<DIDerivedType>(t);
      if (!d) break;
      t = d->getBaseType();
    }
    return 0;
  }

  static std::string Scope(const DIScope* s)
  {
    if (!s || isa<DIFile>(s) || isa<DICompileUnit>(s)) return "";
    std::string n = s->getName().str();
    if (auto* ns = dyn_cast<DINamespace>(s)) { if (n.empty()) n = "(anonymous namespace)"; }
    if (auto* sp = dyn_cast<DISubprogram>(s)) n += "()";
    if (isa<DILexicalBlockBase>(s)) return Scope(s->getScope());
    return Scope(s->getScope()) + n + "::";
  }

  static std::string TypeName(const DIType* t)
  {
    if (!t) return "void";
    if (auto* d = dyn_cast<DIDerivedType>(t))
    {
      switch (d->getTag())
      {
        case dwarf::DW_TAG_pointer_type: return TypeName(d->getBaseType()) + "*";
        case dwarf::DW_TAG_reference_type: return TypeName(d->getBaseType()) + "&";
        case dwarf::DW_TAG_const_type: return "const " + TypeName(d->getBaseType());
        case dwarf::DW_TAG_typedef: return TypeName(d->getBaseType());
        default: return TypeName(d->getBaseType());
      }
    }
    return Scope(t->getScope()) + t->getName().str();
  }

  void Vtables()
  {
    j_.attributeArray("vtables", [&] {
      for (auto& g : m_.globals())
      {
        if (!g.getName().starts_with("_ZTV") || !g.hasInitializer()) continue;
        auto* st = dyn_cast<ConstantStruct>(g.getInitializer());
        if (!st || st->getNumOperands() < 1) continue;
        auto* arr = dyn_cast<ConstantArray>(st->getOperand(0));
        if (!arr) continue;
        j_.object([&] {
          j_.attribute("name", Dem(g.getName()));
          j_.attributeArray("slots", [&] {
            for (unsigned i = 2; i < arr->getNumOperands(); i++)
            {
              auto* v = arr->getOperand(i)->stripPointerCasts();
              if (auto* f = dyn_cast<Function>(v)) j_.value(Dem(f->getName()));
              else j_.value("?");
            }
          });
        });
      }
    });
  }

  // Elements of a constant whose leaves are integers of one width, in memory order.
  bool Flatten(const Constant* c, std::vector<int64_t>& values, unsigned& bits)
  {
    if (values.size() > 4096) return false;
    auto* t = c->getType();
    if (t->isIntegerTy())
    {
      if (bits && bits != t->getIntegerBitWidth()) return false;
      bits = t->getIntegerBitWidth();
      auto* k = dyn_cast<ConstantInt>(c);
      if (!k || bits > 64) return false;
      values.push_back(static_cast<int64_t>(k->getZExtValue()));
      return true;
    }
    uint64_t n;
    if (auto* a = dyn_cast<ArrayType>(t)) n = a->getNumElements();
    else if (auto* st = dyn_cast<StructType>(t)) n = st->getNumElements();
    else return false;
    if (n > 4096) return false;
    for (unsigned k = 0; k < n; k++)
    {
      auto* e = c->getAggregateElement(k);
      if (!e || !Flatten(e, values, bits)) return false;
    }
    return true;
  }

  // Constant tables of integers.
  void Tables()
  {
    j_.attributeArray("tables", [&] {
      for (auto& g : m_.globals())
      {
        if (!g.isConstant() || !g.hasInitializer()) continue;
        std::vector<int64_t> values;
        unsigned bits = 0;
        if (!Flatten(g.getInitializer(), values, bits) || values.empty()) continue;
        j_.object([&] {
          j_.attribute("name", g.getName().str());
          j_.attribute("dem", Dem(g.getName()));
          j_.attribute("bits", static_cast<int64_t>(bits));
          j_.attributeArray("values", [&] {
            for (auto k : values) j_.value(k);
          });
        });
      }
    });
  }

  void Fn(Function& f, const std::string& dem)
  {
    ids_.clear();
    bids_.clear();
    int64_t n = 0, b = 0;
    for (auto& bb : f)
    {
      bids_[&bb] = b++;
      for (auto& i : bb) ids_[&i] = n++;
    }
    j_.object([&] {
      j_.attribute("name", f.getName().str());
      j_.attribute("dem", dem);
      j_.attribute("qual", QualName(dem));
      if (auto* sp = f.getSubprogram())
      {
        j_.attribute("file", Full(sp->getDirectory(), sp->getFilename()));
        j_.attribute("line", static_cast<int64_t>(sp->getLine()));
        j_.attributeArray("argtypes", [&] {
          if (auto* t = sp->getType())
            for (auto e : t->getTypeArray()) j_.value(TypeName(e));
        });
      }
      j_.attributeArray("params", [&] {
        for (auto& a : f.args())
          j_.object([&] {
            j_.attribute("name", a.getName().str());
            j_.attribute("ty", TypeStr(a.getType()));
            j_.attribute("sret", a.hasStructRetAttr());
          });
      });
      j_.attributeArray("blocks", [&] {
        for (auto& bb : f)
          j_.object([&] {
            j_.attribute("id", bids_[&bb]);
            j_.attributeArray("succs", [&] {
              for (auto* s : successors(&bb)) j_.value(bids_[s]);
            });
            j_.attributeArray("insts", [&] { for (auto& i : bb) if (!isa<DbgInfoIntrinsic>(i) && !isa<LifetimeIntrinsic>(i)) Inst(i); });
          });
      });
    });
  }

private:
  void Ref(Value* v)
  {
    if (auto* i = dyn_cast<Instruction>(v))
    { j_.array([&] { j_.value("i"); j_.value(ids_[i]); }); return; }
    if (auto* a = dyn_cast<Argument>(v))
    { j_.array([&] { j_.value("a"); j_.value(static_cast<int64_t>(a->getArgNo())); }); return; }
    if (auto* c = dyn_cast<ConstantInt>(v))
    {
      j_.array([&] {
        j_.value("c");
        if (c->getBitWidth() <= 64) j_.value(c->getSExtValue());
        else j_.value(static_cast<int64_t>(0));
        j_.value(static_cast<int64_t>(c->getBitWidth()));
      });
      return;
    }
    if (auto* c = dyn_cast<ConstantFP>(v))
    {
      SmallString<32> s;
      c->getValueAPF().toString(s);
      j_.array([&] { j_.value("cf"); j_.value(s.str().str()); });
      return;
    }
    if (isa<ConstantPointerNull>(v)) { j_.array([&] { j_.value("n"); }); return; }
    if (isa<UndefValue>(v)) { j_.array([&] { j_.value("u"); }); return; }
    if (isa<ConstantAggregateZero>(v)) { j_.array([&] { j_.value("z"); }); return; }
    if (auto* b = dyn_cast<BasicBlock>(v))
    { j_.array([&] { j_.value("b"); j_.value(bids_[b]); }); return; }
    if (auto* g = dyn_cast<GlobalValue>(v))
    {
      j_.array([&] { j_.value("g"); j_.value(g->getName().str()); j_.value(Dem(g->getName())); });
      return;
    }
    if (auto* ce = dyn_cast<ConstantExpr>(v))
    {
      if (auto* gep = dyn_cast<GEPOperator>(ce))
      {
        APInt off(dl_.getIndexSizeInBits(0), 0);
        if (gep->accumulateConstantOffset(dl_, off))
        {
          j_.array([&] {
            j_.value("ge");
            Ref(gep->getPointerOperand());
            j_.value(off.getSExtValue());
          });
          return;
        }
      }
      j_.array([&] { j_.value("ce"); j_.value(ce->getOpcodeName()); for (auto& o : ce->operands()) Ref(o.get()); });
      return;
    }
    if (auto* mv = dyn_cast<MetadataAsValue>(v))
    {
      (void)mv;
      j_.array([&] { j_.value("md"); });
      return;
    }
    std::string s;
    raw_string_ostream os(s);
    v->printAsOperand(os);
    j_.array([&] { j_.value("x"); j_.value(s); });
  }

  void Inst(Instruction& i)
  {
    j_.object([&] {
      j_.attribute("id", ids_[&i]);
      j_.attribute("op", i.getOpcodeName());
      if (!i.getType()->isVoidTy()) j_.attribute("ty", TypeStr(i.getType()));
      if (i.hasName()) j_.attribute("nm", i.getName().str());
      if (auto* ob = dyn_cast<OverflowingBinaryOperator>(&i))
      {
        if (ob->hasNoSignedWrap()) j_.attribute("nsw", true);
        if (ob->hasNoUnsignedWrap()) j_.attribute("nuw", true);
      }
      if (auto* c = dyn_cast<CmpInst>(&i))
        j_.attribute("pred", CmpInst::getPredicateName(c->getPredicate()).str());
      if (auto* a = dyn_cast<AllocaInst>(&i))
      {
        j_.attribute("aty", TypeStr(a->getAllocatedType()));
        j_.attribute("asz", static_cast<int64_t>(dl_.getTypeAllocSize(a->getAllocatedType())));
      }
      if (auto* s = dyn_cast<StoreInst>(&i))
        j_.attribute("sty", TypeStr(s->getValueOperand()->getType()));
      if (auto* p = dyn_cast<PHINode>(&i))
      {
        j_.attributeArray("inc", [&] {
          for (unsigned k = 0; k < p->getNumIncomingValues(); k++)
            j_.array([&] { Ref(p->getIncomingValue(k)); j_.value(bids_[p->getIncomingBlock(k)]); });
        });
      }
      else if (auto* cb = dyn_cast<CallBase>(&i))
      {
        if (auto* cf = dyn_cast<Function>(cb->getCalledOperand()->stripPointerCasts()))
        {
          j_.attribute("cn", cf->getName().str());
          const std::string d = Dem(cf->getName());
          j_.attribute("cd", d);
          j_.attribute("cq", QualName(d));
        }
        else
        {
          j_.attributeBegin("ind");
          Ref(cb->getCalledOperand());
          j_.attributeEnd();
        }
        if (cb->doesNotReturn()) j_.attribute("noret", true);
        if (cb->arg_size() && cb->paramHasAttr(0, Attribute::StructRet))
        {
          j_.attribute("sret", true);
          j_.attribute("sretsz", static_cast<int64_t>(dl_.getTypeAllocSize(cb->getParamStructRetType(0))));
        }
        j_.attributeArray("deref", [&] {
          for (unsigned k = 0; k < cb->arg_size(); k++)
            j_.value(static_cast<int64_t>(cb->getParamDereferenceableBytes(k)));
        });
        j_.attributeArray("ops", [&] { for (auto& a : cb->args()) Ref(a.get()); });
        if (auto* iv = dyn_cast<InvokeInst>(&i))
        {
          j_.attribute("normal", bids_[iv->getNormalDest()]);
          j_.attribute("unwind", bids_[iv->getUnwindDest()]);
        }
      }
      else if (auto* lp = dyn_cast<LandingPadInst>(&i))
      {
        bool all = false;
        for (unsigned k = 0; k < lp->getNumClauses(); k++)
          if (lp->isCatch(k) && isa<ConstantPointerNull>(lp->getClause(k))) all = true;
        j_.attribute("catchall", all);
        j_.attribute("clauses", static_cast<int64_t>(lp->getNumClauses()));
        j_.attribute("cleanup", lp->isCleanup());
        j_.attributeArray("ops", [&] {});
      }
      else if (auto* g = dyn_cast<GetElementPtrInst>(&i))
      {
        j_.attributeArray("ops", [&] { for (auto& a : g->operands()) Ref(a.get()); });
        j_.attribute("src", TypeStr(g->getSourceElementType()));
        MapVector<Value*, APInt> vars;
        APInt off(dl_.getIndexSizeInBits(0), 0);
        if (g->collectOffset(dl_, dl_.getIndexSizeInBits(0), vars, off))
        {
          j_.attribute("off", off.getSExtValue());
          j_.attributeArray("var", [&] {
            for (auto& kv : vars)
              j_.array([&] { Ref(kv.first); j_.value(kv.second.getSExtValue()); });
          });
        }
        // Names of the struct fields walked through.
        j_.attributeArray("fields", [&] {
          for (auto it = gep_type_begin(*g), e = gep_type_end(*g); it != e; ++it)
            if (StructType* st = it.getStructTypeOrNull())
            {
              const auto idx = cast<ConstantInt>(it.getOperand())->getZExtValue();
              j_.array([&] {
                j_.value(st->hasName() ? st->getName().str() : std::string());
                j_.value(static_cast<int64_t>(idx));
                j_.value(static_cast<int64_t>(dl_.getStructLayout(st)->getElementOffset(static_cast<unsigned>(idx))));
                j_.value(static_cast<int64_t>(dl_.getTypeAllocSize(st)));
              });
            }
        });
      }
      else
      {
        j_.attributeArray("ops", [&] { for (auto& o : i.operands()) Ref(o.get()); });
        if (auto* sw = dyn_cast<SwitchInst>(&i))
          j_.attributeArray("cases", [&] {
            for (auto& c : sw->cases())
              j_.array([&] { j_.value(c.getCaseValue()->getSExtValue()); j_.value(bids_[c.getCaseSuccessor()]); });
          });
        if (auto* e = dyn_cast<ExtractValueInst>(&i))
          j_.attributeArray("idx", [&] { for (auto k : e->indices()) j_.value(static_cast<int64_t>(k)); });
        if (auto* e = dyn_cast<InsertValueInst>(&i))
          j_.attributeArray("idx", [&] { for (auto k : e->indices()) j_.value(static_cast<int64_t>(k)); });
      }
      if (auto loc = i.getDebugLoc())
      {
        j_.attributeArray("loc", [&] {
          for (const DILocation* l = loc.get(); l; l = l->getInlinedAt())
            j_.array([&] {
              j_.value(Full(l->getDirectory(), l->getFilename()));
              j_.value(static_cast<int64_t>(l->getLine()));
              auto* sp = l->getScope()->getSubprogram();
              j_.value(sp ? sp->getName().str() : std::string());
            });
        });
      }
    });
  }

  Module& m_;
  const DataLayout& dl_;
  json::OStream& j_;
  std::map<const Value*, int64_t> ids_;
  std::map<const BasicBlock*, int64_t> bids_;
};

int main(int argc, char** argv)
{
  Options o;
  for (int i = 1; i < argc; i++)
  {
    const std::string a = argv[i];
    const auto next = [&] { return std::string(argv[++i]); };
    if (a == "--keep") o.keep.emplace_back(next());
    else if (a == "--inline") o.inl.emplace_back(next());
    else if (a == "--roots") o.roots.emplace_back(next());
    else if (a == "--unwind") o.unwind = true;
    else if (a == "--reach") o.reach = true;
    else if (a == "--passes") o.passes = next();
    else o.in = a;
  }
  LLVMContext ctx;
  SMDiagnostic err;
  auto m = parseIRFile(o.in, err, ctx);
  if (!m) { err.print("irx", errs()); return 3; }

  // Constructor variants are aliases of one body.
  {
    std::vector<GlobalAlias*> aliases;
    for (auto& a : m->aliases()) aliases.push_back(&a);
    for (auto* a : aliases)
      if (auto* f = dyn_cast<Function>(a->getAliasee()->stripPointerCasts()))
        a->replaceAllUsesWith(f);
  }

  std::map<Function*, std::string> dems, quals;
  for (auto& f : *m)
  {
    dems[&f] = Dem(f.getName());
    quals[&f] = QualName(dems[&f]);
  }

  // What no root reaches needs no body.
  if (o.reach)
  {
    std::set<const Constant*> seen;
    std::vector<const Constant*> todo;
    const auto meet = [&](const Value* v) {
      if (const auto* k = dyn_cast<Constant>(v))
        if (seen.insert(k).second) todo.push_back(k);
    };
    for (auto& f : *m)
      if (!f.isDeclaration() && AnyOf(o.roots, quals[&f])) meet(&f);
    while (!todo.empty())
    {
      const Constant* k = todo.back();
      todo.pop_back();
      if (const auto* f = dyn_cast<Function>(k))
        for (const auto& i : instructions(*f))
          for (const auto& op : i.operands()) meet(op.get());
      for (const auto& op : k->operands()) meet(op.get());
    }
    for (auto& f : *m)
      if (!f.isDeclaration() && !seen.count(&f))
      { f.deleteBody(); f.setComdat(nullptr); }
  }

  // Recursive functions cannot be inlined away.
  std::set<Function*> recursive;
  {
    CallGraph cg(*m);
    for (auto it = scc_begin(&cg); !it.isAtEnd(); ++it)
    {
      const bool loop = it.hasCycle();
      if (!loop) continue;
      for (auto* n : *it)
        if (n->getFunction()) recursive.insert(n->getFunction());
    }
  }

  // Observers of standard containers: they read memory and write none.
  const boost::regex observer(
      "^std::(__cxx11::)?(vector|basic_string|map|unordered_map|set|"
      "unordered_set|deque|list|array|multimap|initializer_list|function|"
      "priority_queue|queue|shared_ptr|__shared_ptr|__shared_ptr_access|"
      "unique_ptr)::"
      "(size|length|empty|capacity|operator\\[\\]|at|begin|end|cbegin|cend|"
      "rbegin|rend|data|front|back|top|count|find|c_str|get|operator->|"
      "operator\\*|operator bool)$|^Eigen::\\w+::(rows|cols|size|data)$");
  const boost::regex std_inline(
      "^__gnu_cxx::__normal_iterator::[^:]*$|^__gnu_cxx::operator|"
      "^std::(move|forward|addressof|__addressof|as_const|min|max|abs|swap|"
      "make_pair|get|cref|ref|make_tuple|isnan|isinf|isfinite|"
      "pair::pair|pair::operator=|numeric_limits::.*|initializer_list::.*|"
      "array::.*|__array_traits::.*|atomic::.*|__atomic_base::.*|"
      "__atomic_float::.*|lock_guard::.*|reference_wrapper::.*|"
      "all_of|any_of|none_of|find_if|find_if_not|__find_if|__find_if_not|"
      "for_each|__iterator_category|begin|end|cbegin|cend|size|clamp|minmax|"
      "bit_and|negate|plus::.*|minus::.*)$|"
      "^__gnu_cxx::__ops::.*$|^__bswap_(16|32|64)$|^__uint(16|32|64)_identity$");
  std::set<Function*> roots;
  for (auto& f : *m)
  {
    // operator[] of (unordered_)map inserts.
    const std::string base = Strip(quals[&f]);
    if (boost::regex_search(base, observer)
        && base != "std::map::operator[]" && base != "std::unordered_map::operator[]")
      f.setMemoryEffects(MemoryEffects::readOnly());
    f.removeFnAttr(Attribute::AlwaysInline);
    f.removeFnAttr(Attribute::NoInline);
    f.removeFnAttr(Attribute::OptimizeNone);
    if (f.isDeclaration()) continue;
    const std::string& d = dems[&f];
    const std::string& q = quals[&f];
    const bool root = AnyOf(o.roots, q);
    if (root) roots.insert(&f);
    bool inl = false;
    if (InLibrary(q)) inl = !AnyOf(o.keep, q);
    else inl = (boost::regex_search(base, std_inline) || AnyOf(o.inl, q)
                || AnyOf(o.inl, d)) && !AnyOf(o.keep, q);
    if (recursive.count(&f) || f.isVarArg()) inl = false;
    f.addFnAttr(inl ? Attribute::AlwaysInline : Attribute::NoInline);
    if (f.hasLinkOnceLinkage() || f.hasLocalLinkage() || f.hasWeakLinkage())
      if (root) f.setLinkage(GlobalValue::ExternalLinkage), f.setComdat(nullptr);
  }

  PassBuilder pb;
  LoopAnalysisManager lam;
  FunctionAnalysisManager fam;
  CGSCCAnalysisManager cgam;
  ModuleAnalysisManager mam;
  pb.registerModuleAnalyses(mam);
  pb.registerCGSCCAnalyses(cgam);
  pb.registerFunctionAnalyses(fam);
  pb.registerLoopAnalyses(lam);
  pb.crossRegisterProxies(lam, fam, cgam, mam);
  ModulePassManager mpm;
  const std::string pre = o.unwind ? "" : "function(lowerinvoke,simplifycfg),";
  ModulePassManager mpm2;
  if (auto e = pb.parsePassPipeline(mpm, pre + "always-inline,globaldce"))
  {
    errs() << "irx: " << toString(std::move(e)) << "\n";
    return 3;
  }
  if (auto e = pb.parsePassPipeline(mpm2, "function(" + o.passes + ")"))
  {
    errs() << "irx: " << toString(std::move(e)) << "\n";
    return 3;
  }
  // Roots may themselves be inlined elsewhere; keep their bodies.
  mpm.run(*m, mam);
  // Only the roots are analysed: everything else becomes a declaration.
  for (auto& f : *m)
    if (!f.isDeclaration() && !roots.count(&f))
    { f.deleteBody(); f.setComdat(nullptr); }
  mam.clear();
  fam.clear();
  mpm2.run(*m, mam);

  json::OStream j(outs(), 0);
  j.object([&] {
    Dumper d(*m, j);
    d.Structs();
    d.Vtables();
    d.Tables();
    j.attributeArray("functions", [&] {
      for (auto& f : *m)
        if (!f.isDeclaration() && roots.count(&f)) d.Fn(f, Dem(f.getName()));
    });
  });
  outs() << "\n";
  return 0;
}
