COMMON_ASSUMPTIONS = ["x86-64 Linux host, little endian, clang 18 -O1 semantics of the source; assembler and libc primitives modelled by the executor",
  "every unconfirmed solver counterexample (native replay does not reproduce) is reported in the evidence and not alarmed on"]
CHECKS = {}
NA = {}
def J(name, h, fn, **k): return dict(name=name, h=h, fn=fn, **k)
W = ["8", "16", "32", "64"]
CHECKS["P01"] = dict(bounds="arena size 1..2^40, any boundaries, any 64-bit address, any contents; every memory instruction (slow and fast path) in a 1 MiB arena with fixed boundaries", jobs=lambda t:
  [J("read"+w, "mem", "read"+w, cover=["read-ok", "read-fault"]) for w in W] + [J("write"+w, "mem", "write"+w, cover=["write-ok", "write-fault"]) for w in W])
CHECKS["P02"] = dict(bounds="arena size 1..2^39, any boundaries, any 64-bit address and value; host-side typed stores; every memory instruction (slow and fast path) in a 1 MiB arena with fixed boundaries", jobs=lambda t: [J("write"+w, "mem", "write"+w, cover=["write-ok", "write-fault"]) for w in W])
CHECKS["P03"] = dict(bounds="arena size 1..2^20 (fill, arrays, views: 2^39), any boundaries, any 64-bit address and length; comparisons of up to 8 bytes (thorough 24) and of any longer length that must be refused; strings copied up to 6 (thorough 16) characters, measured up to any length", jobs=lambda t:
  [J(f, "mem", f, cover=["ok", "fault"]) for f in ["copy_to", "copy_from", "fill", "load_copy", "boundaries", "view", "array1", "array8", "array12", "warray1", "warray8", "warray12"]] +
  [J("measure", "mem", "measure", cover=["ok", "fault"], defs=["-DSUM"]), J("compare", "mem", "compare", cover=["ok", "fault"], params={"n": 24 if t == "thorough" else 8}), J("string", "mem", "string", cover=["ok", "fault"], params={"n": 16 if t == "thorough" else 6})])
CHECKS["P08"] = dict(bounds="all 2^32 instruction words; the ISA table of binutils 2.42", jobs=lambda t:
  [J("sound%d" % i, "decode", "decode_sound", params={"top": i}, cover=["unsupported"]) for i in range(8)] +
  [J("complete%d" % i, "decode", "decode_complete", params={"lo": i * 24, "hi": i * 24 + 24}, cover=["row"]) for i in range(15)] +
  [J("unsupported", "decode", "decode_unsupported", cover=["raised"])])
# ---- P04-P07: one instruction against the architecture
import re, os
_here = os.path.dirname(os.path.abspath(__file__))
def isa_rows():
  names = re.findall(r"^\s*ISA\((\w+),", open(_here + "/harness/isa_table.hpp").read(), re.M)
  src = open(_here + "/harness/isa_spec.hpp").read(); i = src.index("void Spec::runv("); j = src.index("void Spec::run(")
  cat = {}
  for n in re.findall(r"CASE\((\w+)\)", src[i:j]): cat[n] = 7
  body = src[j:]; pend = []
  for m in re.finditer(r"CASE\((\w+)\)((?:\s*cat = (\w+))?)", body):
    pend.append(m.group(1))
    nxt = body[m.end():m.end() + 8].lstrip()
    if m.group(3):
      for p in pend: cat[p] = {"MEM": 5, "BR": 6, "SYS": 0}[m.group(3)]
      pend = []
    elif not nxt.startswith("CASE("):
      for p in pend: cat[p] = 4
      pend = []
  return [(k, n, cat[n]) for k, n in enumerate(names)]
ISA_HEAVY = re.compile("^(VSHUF_B|VFRSTPI_B|XVPERMI_D)$") # split four ways
ISA_ALONE = re.compile("^(MUL|MULH|MULW|DIV|MOD)_") # one job each: a slow one must not take another's time
def isa_jobs(cat, per=3, h="isa", fn="isa", only=None, t="quick", **k):
  rows = [(i, n) for i, n, c in isa_rows() if c == cat and (only is None or only(n))]
  heavy = [r for r in rows if ISA_HEAVY.match(r[1])]; alone = [r for r in rows if ISA_ALONE.match(r[1])]; light = [r for r in rows if r not in heavy and r not in alone]
  groups = [([r], 9) for r in alone] + [([r], p) for r in heavy for p in (range(4) if t == "thorough" else [9])] + [(light[i:i + per], 9) for i in range(0, len(light), per)]
  return [J(("+".join(n for _, n in g))[:60] + (".%d" % p if p < 9 else ""), h, fn, cost=10 if g[0] in heavy else 5 if g[0] in alone else 1, time=300, params=dict([("n", len(g)), ("cat", cat), ("part", p), ("full", int(t == "thorough"))] + [("r%d" % q, r[0]) for q, r in enumerate(g)]), cover=["row"], **k) for g, p in groups]
CHECKS["P04"] = dict(bounds="alone and pre-decoded in a three-instruction block: every integer instruction word, any register file, any 4-aligned pc", jobs=lambda t: isa_jobs(4, 4) + fast_jobs(t, (4,)))
CHECKS["P05"] = dict(bounds="alone and pre-decoded in a three-instruction block: every load/store/atomic word, any register file and memory; arena 1 MiB with fixed boundaries", jobs=lambda t: isa_jobs(5, 3) + fast_jobs(t, (5,)))
CHECKS["P06"] = dict(bounds="alone and pre-decoded in a three-instruction block: every branch word, any register file, any 4-aligned pc", jobs=lambda t: isa_jobs(6, 2) + fast_jobs(t, (6,)))
CHECKS["P07"] = dict(bounds="alone and pre-decoded in a three-instruction block: every floating-point and vector word, any register file; FP arithmetic uninterpreted", jobs=lambda t: isa_jobs(7, 3, fp=True, t=t) + fast_jobs(t, (7,)))
def fast_jobs(t, cats=(4, 5, 6, 7)): # the same words through the pre-decoded fast path
  return [j if j.update(name="fast:" + j["name"]) else j for c in cats for j in isa_jobs(c, 4, h="fast", fn="fastslow", fp=True, only=lambda n: n != "RDTIME_D")]
for _p in ("P01", "P02"): # every load and store instruction, too
  def _more(t, f=CHECKS[_p]["jobs"]): return f(t) + isa_jobs(5, 3) + fast_jobs(t, (5,))
  CHECKS[_p]["jobs"] = _more
CHECKS["P09"] = dict(bounds="every instruction word in a three-instruction block", jobs=fast_jobs)
# ---- P10/P11: instruction limits, counts, stop and resume
def flow_jobs(fn, t, N, **p):
  return [J("%s.k%d" % (fn[5:] + ("_resume" if p.get("resume") else ""), k), "flow", fn, cost=3, time=300, params=dict(p, N=N, k0=k)) for k in range(11)]
CHECKS["P10"] = dict(bounds="every program of three instructions over eleven kinds (arithmetic, handler call, pc-relative, system call, break, stop marker, conditional and unconditional branches, calls, indirect jumps) with every target in the code or just outside, every start slot, limits 1-6; straight-line runs of 1..16500 instructions at the boundaries of the cache's fields",
  jobs=lambda t: flow_jobs("flow_limit", t, 3 if t == "quick" else 4, few=int(t != "quick")) + flow_jobs("flow_unlimited", t, 3) + [J("long%d_%d" % (n, lo), "flow", "flow_long", params=dict(len=n, lo=lo, hi=hi, pcslot=ps), cost=5, cover=["done"])
    for n, lo, hi, ps in ((300, 0, 4, 5), (300, 40, 50, 250), (257, 0, 4, 256), (16500, 0, 2, 100), (16500, 110, 122, 16400))])
CHECKS["P11"] = dict(bounds="as P10, interrupted once at any limit 1-4 and resumed", jobs=lambda t: flow_jobs("flow_limit", t, 3, resume=1, maxlimit=3, few=int(t == "quick")))
CHECKS["P12"] = dict(bounds="every 32-bit word in the middle of a block, with fewer and with more than 256 handlers in use; code of 0-16 bytes at any base; running off five-instruction programs from every byte",
  jobs=lambda t: [J("word%d_f%d" % (lo, f), "cache", "cache_word", params=dict(lo=lo, hi=hi, filler=f), cost=4, cover=["bytecode"] if lo < 29 and lo != 28 else []) for f in (0, 1) for lo, hi in ((0, 1), (1, 9), (9, 12), (12, 28), (28, 29), (29, 30), (30, 64))] +
    [J("size", "cache", "cache_size", cover=["done", "refused", "empty"]), J("runoff", "cache", "cache_runoff", params=dict(n=3 if t == "quick" else 4), cover=["raised"])])

# ---- native calls
def native_jobs(t):
  th = t == "thorough"; js = []
  def A(n, fn, na, cover=("ok", "fault"), **k): js.extend(J("%s.%d" % (n, a), "native", fn, cover=list(cover), params=dict(k.get("p", {}), alias=a), time=300, defs=k.get("defs", [])) for a in range(na))
  A("memcpy", "nat_memcpy", 4); A("memmove", "nat_memcpy", 4, p=dict(move=1)); A("memset", "nat_memset", 4)
  A("memcmp", "nat_memcmp", 3, p=dict(n=24 if th else 12)); A("memcmp_big", "nat_memcmp", 1, p=dict(big=1))
  A("memchr", "nat_memchr", 1, p=dict(n=16 if th else 8)); A("memchr_any", "nat_memchr", 3, defs=["-DSUM"], cover=["found", "missing", "fault"])
  for l, nm in ((0, "strlen"), (1, "strnlen")): A(nm, "nat_strlen", 1, p=dict(n=16 if th else 8, strn=l)); A(nm + "_any", "nat_strlen", 3, p=dict(strn=l), defs=["-DSUM"])
  A("strcmp", "nat_strcmp", 3, p=dict(n=8 if th else 4)); A("strncmp", "nat_strcmp", 3, p=dict(n=8 if th else 4, strn=1))
  return js
CHECKS["P17"] = dict(bounds="any pointers, lengths and memory contents in a 1 MiB arena; comparisons decided up to 12 (thorough 24) bytes and strings up to 4 (thorough 8) characters, longer ones for their bounds only; memcpy/memmove/memset/memchr/strlen/strnlen of any length", jobs=native_jobs)

def heap_jobs(t):
  K = range(1, 4 if t == "quick" else 6)
  return [J("init", "heap", "heap_init", cover=["init"])] + [J("%s.%d" % (f, k), "heap", "heap_" + f, params=dict(k=k), time=300 if t == "quick" else 1500, cost=k, cover=["ok"] if f == "free" and k > 1 else []) for k in K for f in ("malloc", "free", "realloc")]
CHECKS["P16"] = dict(bounds="one operation with any arguments from every well-formed heap of 1-3 (thorough 5) blocks of any size, anywhere in the address space; the new heap is well formed", jobs=heap_jobs)
CHECKS["P18"] = dict(bounds="one call with any arguments from every well-formed heap of 1-3 (thorough 4) blocks in a 64 KiB heap, any memory contents; calloc with any count of nine element sizes from 0 to beyond 2^60", jobs=lambda t:
  [J("%s.%d" % (n, k), "heap", f, params=dict(p, k=k), time=300, cost=k) for k in range(1, 4 if t == "quick" else 5) for n, f, p in (("malloc", "sys_malloc", {}), ("calloc", "sys_malloc", dict(calloc=1)), ("realloc", "sys_realloc", {}), ("free", "sys_free", {}))])

CHECKS["P19"] = dict(bounds="one call with any arguments from every allocator position in a 1 MiB memory with any contents and registers (inductive step); four stack/brk sizes; histories of 3 (thorough 4) calls", jobs=lambda t:
  [J(f, "mmap", f, params=dict(p), cover=c, time=300) for f, c, p in (("map_anon", ["refused", "mapped"], {}), ("map_fixed", ["refused", "mapped"], {}), ("unmap", ["kept", "released"], {}), ("host_map", ["refused", "mapped"], {}))] + [J("unmap.host", "mmap", "unmap", params=dict(host=1), cover=["kept", "released"])]
  + [J("layout.%d.%d" % (a, b), "mmap", "map_anon", params=dict(stack=a, brk=b), cover=["refused", "mapped"]) for a, b in ((5000, 4096), (4096, 100), (65536, 0))]
  + [J("history.%d" % k, "mmap", "history", params=dict(steps=3 if t == "quick" else 4, ops=k), cover=["history"], time=300) for k in ((0, 2, 4, 6) if t == "quick" else (0, 2, 4, 6, 8, 10, 12, 14))])

CHECKS["P21"] = dict(bounds="every 64-bit system call number against a handler installed at every 32-bit number, any registers; by stepping, by both dispatch loops and from the host; 31 immediate call codes; default hook, raising handlers and results", jobs=lambda t:
  [J("number.%s.%x" % (w, lo), "dispatch", "dispatch_number", params=dict(how=h, lo=lo, hi=hi), cover=c, time=300) for w, h in (("step", 0), ("limit", 1), ("free", 2)) for lo, hi, c in P21R]
  + [J("imm.%s" % w, "dispatch", "dispatch_number", params=dict(how=h, imm=1, hi=511), cover=["handler", "unknown"], time=300) for w, h in (("step", 0), ("limit", 1), ("free", 2))]
  + [J("%s.%s" % (f[9:], w), "dispatch", f, params=dict(how=h), cover=c, time=300) for w, h in (("step", 0), ("limit", 1), ("free", 2)) for f, c in (("dispatch_default", ["thrown"]), ("dispatch_throw", ["thrown"]), ("dispatch_result", ["result"]))] + [J("api.%x" % lo, "dispatch", "dispatch_api", params=dict(lo=lo, hi=hi), cover=c) for lo, hi, c in P21R])
P21R = [(0, 255, ["handler", "unknown"]), (256, 511, ["handler", "unknown"]), (512, 2**64 - 1, ["unknown"])]

CHECKS["P25"] = dict(bounds="nine argument lists (8 integers of every width, 13 mixed, floating-point beyond FA7 and on the stack, strings of five lengths, structures, enumerations, small guest strings) with any values, from any registers, stack pointer and memory contents; five ways to call; nine result types; preemption from both dispatch loops with success, guest failure and timeout", jobs=lambda t:
  [J("%s.%d" % (f, h), "vmcall", f, params=dict(how=h), cover=["called"], time=300) for f in ("args_int", "args_many", "args_fp", "args_fp_stack", "args_str") for h in range(5)] + [J("gstr.%d" % h, "vmcall", "args_guest_string", params=dict(how=h), cover=["called"]) for h in (0, 2, 3)]
  + [J("ret.%d.%d" % (k, h), "vmcall", "returns", params=dict(how=h, t=k), cover=["called"]) for k in range(9) for h in range(4)] + [J("preempt.%d.%d" % (k, h), "vmcall", "preempted", params=dict(kind=k, how=h), cover=["preempted", "continued"]) for k in range(3) for h in range(2)]
  + [J("limit.%d" % h, "vmcall", "limits", params=dict(how=h), cover=["timeout"]) for h in (1, 2, 3)] + [J("fail.%d" % h, "vmcall", "failing", params=dict(how=h), cover=["failed"]) for h in range(5)])

CHECKS["P26"] = dict(bounds="any register file; indices 0-7; 15 scalar types, 4 structures, 4 pointers, views of any length, strings (at index 0 and 7) of up to 6 (thorough 16) bytes, memories up to 1 MiB with any layout and contents; 5 mixed argument lists; 20 result types", jobs=lambda t:
  [J("arg.%d" % k, "sysargs", "args", params=dict(t=k), cover=["scalar"]) for k in range(15)] + [J("arg.%d" % k, "sysargs", "args", params=dict(t=k), cover=["struct", "fault"]) for k in (20, 21, 22, 23, 30, 31, 32, 33)]
  + [J("arg.view", "sysargs", "args", params=dict(t=40), cover=["view", "fault"]), J("arg.string", "sysargs", "args", params=dict(t=41, len=6 if t == "quick" else 16), cover=["string", "fault"], time=300)]
  + [J("mixed.%d" % k, "sysargs", "mixed", params=dict(t=k), cover=["mixed"]) for k in range(5)] + [J("result.%d" % k, "sysargs", "results", params=dict(t=k), cover=["result"]) for k in list(range(17)) + [20, 21, 22]] + [J("return.%d" % k, "sysargs", "results", params=dict(t=k), cover=["return"]) for k in range(30, 37)])

CHECKS["P27"] = dict(bounds="0-3 arguments and 0-3 environment strings of 0-40 bytes (four lengths each, thorough eight) with any contents, any stack pointer in a 256 KiB memory with any contents (any 64-bit stack pointer for short lists), any registers, entry point and program headers", jobs=lambda t:
  [J("n.%d.%d" % (a, e), "initstack", "initial_stack", params=dict(args=a, env=e, lens=4 if a + e < 3 else 2 if t == "quick" else 4), cover=["stack"], time=400) for a in (1, 2, 3) for e in range(4) if a + e <= (4 if t == "quick" else 6)]
  + [J("none", "initstack", "initial_stack", params=dict(args=0), cover=["refused"])] + [J("sp.%d" % e, "initstack", "initial_stack", params=dict(args=1, env=e, anysp=1, lens=2), cover=["stack", "refused"], time=400) for e in range(2)])

CHECKS["P29"] = dict(bounds="every content, starting value, alignment and split of 0-24 bytes (thorough 64) with hardware support; table-driven fallback: every byte step, composition up to 16 (64) bytes", jobs=lambda t:
  [J("hw.%d" % lo, "crc", "crc_bytes", params=dict(hw=1, lo=lo, n=lo + 5), cover=["whole", "parts"], time=300) for lo in range(0, 24 if t == "quick" else 60, 6)] + [J("table", "crc", "crc_table", params=dict(n=16 if t == "quick" else 64), cover=["byte", "compose"]), J("step", "crc", "crc_step", cover=["step"])])

# ---- program loader
def elf_headers(t, place):
  big = t == "thorough"; js = [J("headers.0", "elf", "elf_headers", params=dict(ph=0), cover=["refused"]), J("headers.big", "elf", "elf_headers", params=dict(ph=2, pn=1), cover=["refused"])]
  js += [J("headers.%d.at%d.%d" % (n, at, pl), "elf", "elf_headers", params=dict(ph=n, at=at, place=pl, narrow=int(pl == 2 and not big), max=512 if big or not pl else 208), cover=["refused", "accepted"] + (["code"] if pl & 4 else []), time=700, query=60, cost=9) for n, at, pl in (((1, 0, 7), (2, 64, 1), (2, 64, 2), (2, 64, 4), (2, 13, 2), (2, 13, 4)) if place else ((1, 0, 0), (2, 0, 0)) + (((3, 0, 0),) if big else ()))]
  return js
def elf_text(t): return [J("text.%d.%d" % (n, i), "elf", "elf_text", params=dict(ns=n, idx=i), cover=["whole", "text"], time=600) for n, i in ((1, 0), (2, 1), (2, 0))]
def elf_sym(t): return [J("symhdr.%d.%d.%d" % x, "elf", "elf_symhdr", params=dict(ns=x[0], t0=x[1], t1=x[2], str=2 if x[0] == 3 and t == "quick" else 3), cover=["accepted"], time=600) for x in ((1, 2, 0), (1, 11, 0), (2, 2, 0), (2, 0, 11), (3, 2, 2)) + (((3, 2, 11),) if t == 'thorough' else ())]
def elf_lookup(t): return [J("name.%d.%d" % (k, q), "elf", "elf_lookup", params=dict(syms=k, qlen=q), cover=["loaded", "notfound"] + (["found"] if q else []), time=600) for k in (1, 2) for q in (0, 1, 2, 3)] + [J("addr.%d" % k, "elf", "elf_lookup", params=dict(syms=k, byname=0, strs=3), cover=["loaded", "found", "notfound"], time=600) for k in (1, 2)]
CHECKS["P13"] = dict(bounds="any file of up to 512 bytes with at most two program headers anywhere (three when thorough) and no sections, any memory, stack and heap size (memory up to 1 GiB); any contents of one or two section headers and the names they use; any contents of one to three symbol and string table headers, one symbol each; decoding of the code itself: P12", jobs=lambda t: elf_headers(t, 0) + elf_text(t) + elf_sym(t))
CHECKS["P14"] = dict(bounds="as P13, two program headers at the usual or an overlapping place in files of up to 208 bytes (thorough 512); one program header anywhere", jobs=lambda t: elf_headers(t, 1) + elf_text(t))
CHECKS["P15"] = dict(bounds="one and two symbols with any contents, string tables of 3-6 bytes, names of 0-3 characters, any address; table headers as P13", jobs=lambda t: elf_sym(t) + elf_lookup(t))

CHECKS["P28"] = dict(bounds="two machines with any programs of one to three words (equal hashes included), two bases, two memory sizes, released in either order; any three keys; three machines over two programs and any history of four loads, evictions and destructions (thorough five); native calls set up in one of three machines; decoding itself: P12; one thread at a time", jobs=lambda t:
  [J("identity.%d.%d" % x, "shared", "identity", params=dict(n1=x[0], n2=x[1]), defs=["-DOVR"], cover=["separate"] + (["shared"] if x[0] == x[1] else []), time=600) for x in ((1, 1), (2, 2), (1, 2), (3, 3))]
  + [J("keys", "shared", "keys", cover=["keys"]), J("patched", "shared", "patched", cover=["patched"])] + [J("history.%d" % f, "shared", "history", params=dict(steps=4 if t == "quick" else 5, first=f), cover=["history"], time=500) for f in (0, 1, 2)])

# ---- guest threads, futexes and signals
def thr(t, js): return [dict(j, params=dict(j["params"], n=n, **({"gap": g} if g else {})), name=j["name"] + ".n%d" % n + (".gap%d" % g if g else ""), time=600) for j in js for n, g in ([(n, g) for n in (1, 2, 3, 4) for g in range(n + 1)] if t == "thorough" else ((1, 0), (2, 1), (3, 0)))]
def TJ(name, fn, **p): return J(name, "threads", fn, params=p, cover=[])
CHECKS["P22"] = dict(bounds="any 64-bit signal arguments, handlers, flags, masks, stack descriptions and structure addresses in a 1 MiB memory with any contents; two registrations then a query; one registration then a delivery, to the calling thread, with and without thread support", jobs=lambda t:
  [J("action.same.%d" % h, "threads", "sig_action", params=dict(rel=0, query=0, threads=h), cover=["same"]) for h in (0, 1)] + [J("action.refused.%d" % h, "threads", "sig_action", params=dict(rel=2, threads=h), cover=["refused"]) for h in (0, 1)]
  + [J("action.%s.%d" % ("first second third".split()[q], l), "threads", "sig_action", params=dict(rel=q < 2, query=q, lo=l, hi=l + 7), cover=["two"] if q < 2 else ["unset"]) for q in (0, 1, 2) for l in range(1, 65, 8)]
  + [J("memory", "threads", "sig_action_mem", cover=["done", "fault"]), J("stack", "threads", "sig_stack", cover=["done", "fault"])]
  + [J("deliver.%d.%d" % (how, h), "threads", "sig_deliver", params=dict(how=how, threads=h), cover=["delivered", "altstack", "ignored"]) for how in (130, 131) for h in (0, 1)]
  + [J("deliver.refused.%d.%d" % (how, h), "threads", "sig_deliver", params=dict(how=how, threads=h, rel=2), cover=[]) for how in (130, 131) for h in (0, 1)]
  + [J("deliver.other.%d.%d.%d" % (how, h, l), "threads", "sig_deliver", params=dict(how=how, threads=h, rel=1, lo=l, hi=l + 7), cover=["ignored"]) for how in (130, 131) for h in (0, 1) for l in range(1, 65, 8)])
CHECKS["P23"] = dict(bounds="one call from any scheduler state of one to three threads, possibly one already left (thorough: one to four), any registers, wait words, masks and memory (1 MiB); the states reached are of the same form, so histories of any length over so many threads are covered; signals to other threads with a handler: not covered", jobs=lambda t:
  thr(t, [TJ("yield", "yield"), TJ("exit", "texit"), TJ("tgkill", "tkill"), TJ("clone", "tclone"), TJ("clone3", "tclone", three=1), TJ("yield_to", "hostops"), TJ("unblock", "hostops", op=1), TJ("block", "futex"), TJ("wake", "futex", cmd=1)] + [TJ("call%d" % n, "simple", nr=n) for n in (94, 96, 99, 178)]))
CHECKS["P24"] = dict(bounds="as P23; any word address, value, count from zero, mask other than zero, private and clock flags", jobs=lambda t:
  thr(t, [TJ("futex.%d.%d" % (c, nr), "futex", cmd=c, nr=nr) for c in (0, 1, 9, 10) for nr in (98, 422)] + [TJ("other.%d" % nr, "futex_other", nr=nr) for nr in (98, 422)] + [TJ("exit", "texit"), TJ("unblock", "hostops", op=1)]))
CHECKS["P20"] = dict(bounds="each of the 35 installed calls, with and without thread support; all argument registers, memory contents (1 MiB, with unreadable and read-only parts) and allocation state arbitrary; at most 2 buffers or descriptors (thorough 4) or more than 1024; random requests up to 16 bytes (thorough 32) or running off memory; buffers of a megabyte or more in writev: not covered", jobs=lambda t:
  [J("call%d.%d" % (n, h), "linux", "sys", params=dict(nr=n, threads=h, cap=4 if t == "thorough" else 2), time=600, cover=["done"]) for h in (0, 1) for n in (25, 29, 56, 57, 63, 64, 66, 73, 78, 80, 93, 94, 96, 98, 99, 101, 113, 123, 132, 134, 135, 167, 169, 172, 174, 175, 176, 177, 178, 214, 215, 222, 226, 233, 261, 278, 291) if not (h and n in (93, 94, 96, 98, 178))])
CHECKS["P32"] = dict(bounds="all 2^32 instruction words, any program counter, buffers of 0 to 64 bytes; any registers; backtraces of any state with up to 4 (without symbols) or 1 return address on the stack, and of a full stack, with one symbol of any range and a name of 10 to 5000 characters; the text itself is not checked, its length is exact", jobs=lambda t:
  [J("word%d" % i, "printer", "print_word", params={"top": i}, cover=["printed"]) for i in range(16)] + [J("string%d" % i, "printer", "to_string", params={"top": i}, cover=["printed"]) for i in range(16)] + [J("current", "printer", "current", cover=["outside", "inside"]), J("registers", "printer", "registers", cover=["printed"])] +
  [J("backtrace%d" % n, "printer", "backtrace", params=dict(name=n, depth=d), cover=["printed"]) for n, d in ((0, 4), (10, 1), (4050, 1), (4096, 1), (5000, 1))] + [J("backtrace_deep", "printer", "backtrace_deep", cover=["printed"])])
CHECKS["P30"] = dict(bounds="guest structures with any 64-bit pointers, sizes and capacities over a 1 MiB memory with any contents; strings set of 0 to 35 characters, read of up to 40 characters (any length refused); vectors of up to 5 elements of 1, 8 and 12 bytes and up to 3 strings, one operation each; vectors of up to 3 vectors; Rust vectors of up to 3 strings; scoped objects overwritten by the guest with anything; element-by-element operations on made-up vectors of up to 3 elements or over 16 MiB", jobs=lambda t:
  [J("string.%s.%d" % (f, v), "guest", f, params={"view": v, "again": v}, cover=[]) for f in ("str_read", "str_set", "rust_read", "rust_set") for v in (0, 1) if not (v and f == "rust_set")] + [J("vector.%d.%d" % (o, y), "guest", "vec_hostile", params=dict(op=o, type=y), cover=["refused"]) for o in range(13) for y in (0, 1, 2)]
  + [J("rustvec.%d.%d" % (o, y), "guest", "vec_rust", params=dict(op=o, type=y), cover=["done"]) for o in range(6) for y in (0, 1, 2)] + [J("model.%d.%d" % (o, y), "guest", "vec_model", params=dict(op=o, type=y), cover=["done"]) for o in range(8) for y in (0, 1, 2)] + [J("strings.%d" % o, "guest", "vec_strings", params=dict(op=o), cover=["done"]) for o in range(15)] + [J("wrecked.%d" % k, "guest", "vec_wrecked", params=dict(type=k), cover=["done"]) for k in range(4)])
