#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from one place, so that they stay in step."""
import json, os
N='astro-float-num/src/'
P=[]
def p(id,title,statement,over,text,why,files,mech,state,obs):
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,
      "anchors":{"files":[f if f.startswith('astro-float') else N+f for f in files],
      "mechanism":[{"name":a,"where":N+b if not b.startswith('astro-float') else b} for a,b in mech],
      "state":[{"name":a,"meaning":m,"where":N+b} for a,m,b in state],"observe_at":obs,"hook_needed":None}})

p("A01","A failed memory allocation is contained",
 "When any memory request of any operation (arithmetic, elementary functions, constants, conversions, parsing, formatting to a string, contexts, expressions) is refused by the system, the operation reports the documented memory-allocation error - an error result, or NaN that carries it - or returns exactly the result it would have returned with memory available. It never panics, aborts the process, returns a different number or text, loops forever, or reports a memory error when nothing was refused.",
 ["fault_sequences","inputs","programs"],
 "for every operation, operand, precision and rounding mode, and for every choice of which of its memory requests fail (one, several, all from some point on, only large ones, beyond a byte budget)",
 "No test makes an allocation fail: each operation has tens to thousands of allocation points, and the failing one decides which intermediate state is abandoned.",
 ["common/buf.rs","num.rs","ext.rs","conv.rs","strop.rs","parser.rs","ops/series.rs","ops/consts/mod.rs","mantissa/mantissa.rs","mantissa/fft.rs","mantissa/conv.rs","astro-float-macro/src/lib.rs"],
 [("fallible word buffers","common/buf.rs"),("error to NaN conversion","ext.rs"),("fallible growth of digit and character buffers","conv.rs")],
 [("NaN cause","error carried by a NaN result","ext.rs")],["every public operation of BigFloat, Consts and Context","expr! results"])
p("A02","A failed operation leaves no trace",
 "After an operation has failed for lack of memory, its operands, the constants cache, the context and all per-thread state are as usable as before: repeating the same call with memory available, and every later call of any kind, returns exactly what it would have returned had the failed call never been made. A number whose precision change failed keeps its value.",
 ["histories","fault_sequences"],
 "for every sequence of operations sharing caches and contexts, every subset of them that fails, and every allocation at which they fail",
 "Tests never continue after a failure; whether a cache is left half-updated depends on which request failed and on what is asked next.",
 ["ops/consts/pi.rs","ops/consts/e.rs","ops/consts/ln2.rs","ops/consts/ln10.rs","ops/consts/mod.rs","mantissa/conv.rs","ctx.rs","num.rs","common/consts.rs"],
 [("incremental extension of cached constants","ops/consts/pi.rs"),("growth of the powers-of-ten table","mantissa/conv.rs"),("lazily created per-thread cache","common/consts.rs")],
 [("cached series state","partial sums and value of each constant","ops/consts/pi.rs"),("powers of ten","shared by parsing and formatting","ops/consts/mod.rs")],
 ["results of later calls with the same cache, context or thread"])
p("A03","Results do not depend on what a cache, context or thread did before",
 "An operation's result depends only on its operands and its explicit settings (precision, rounding mode, radix, exponent range). It is identical - value, precision, sign, exactness flag, text - with a brand-new constants cache, with one that has served any history of other requests, with a cache that was moved between or shared by unrelated users, and in a new or a long-running thread.",
 ["histories","programs"],
 "for every history of requests served by the same cache, context and thread, in every order, before the call",
 "Tests use one cache in one fixed order, mostly growing; descending and interleaved precisions, and reuse across different functions, are histories no test enumerates.",
 ["ops/consts/mod.rs","ops/consts/pi.rs","ops/consts/e.rs","ops/consts/ln2.rs","ops/consts/ln10.rs","mantissa/conv.rs","ctx.rs","common/consts.rs","conv.rs"],
 [("constants cache reuse","ops/consts/mod.rs"),("powers-of-ten reuse","conv.rs")],
 [("cached constants","values at the largest precision asked so far","ops/consts/mod.rs")],["results of every operation that takes a cache or uses the thread's own"])
p("A04","Constants are right after every history of requests",
 "Pi, e, ln 2 and ln 10 obtained from a constants cache are the true value correctly rounded to the requested precision in the requested mode (within one unit in the last place when no rounding is requested), at every precision and in every order of requests, growing or shrinking, also after requests that failed for lack of memory.",
 ["histories","fault_sequences","inputs"],
 "for every sequence of (constant, precision, rounding mode) requests to one or several caches, interleaved with other users of the cache and with failed requests",
 "Tests compare constants with a reference at random precisions one at a time; which cached state answers a request depends on the whole sequence before it.",
 ["ops/consts/pi.rs","ops/consts/e.rs","ops/consts/ln2.rs","ops/consts/ln10.rs","ops/consts/mod.rs"],
 [("binary splitting extended incrementally","ops/consts/pi.rs"),("correct rounding of the cached value","ops/consts/mod.rs")],
 [("number of terms summed","decides whether the cached value is precise enough","ops/consts/pi.rs")],["the constants returned by a cache"])
p("A05","Threads do not influence each other",
 "Operations running in several threads at once - each with its own cache or handing caches to each other, sharing operands by reference, and using the per-thread and global constants the library creates on first use - return in every interleaving exactly what they return when run alone. No interleaving deadlocks, panics, crashes or loses an operation, also when memory runs short in one of the threads.",
 ["schedules","programs","fault_sequences"],
 "for every interleaving of any number of threads, including preemption inside every library function and inside first-use initialisation, and stalled threads",
 "The tests are single-threaded; first-use races exist once per process and the operating system's scheduler samples a handful of interleavings.",
 ["common/consts.rs","ext.rs","ops/consts/mod.rs","ctx.rs"],
 [("lazily initialised global constants","common/consts.rs"),("thread-local cache","common/consts.rs")],
 [("global constants","small numbers shared by all threads","common/consts.rs")],["results of operations in each thread"])
p("A06","Nothing depends on memory contents or addresses",
 "Every result is the same whatever fresh memory happens to contain, wherever blocks are placed, whether a growing block moves, and in whatever order freed blocks are reused. In particular no result ever contains data from memory that was never written.",
 ["configurations","inputs","programs"],
 "for every content of newly allocated memory, every placement and reuse policy of the allocator, every program",
 "The library leaves fresh buffers uninitialised on purpose; under the test allocator fresh memory is mostly zero or recently freed words, so a read of an unwritten word usually goes unnoticed.",
 ["common/buf.rs","mantissa/mantissa.rs","mantissa/fft.rs","mantissa/toom2.rs","mantissa/toom3.rs","mantissa/div.rs","mantissa/sqrt.rs","mantissa/cbrt.rs","mantissa/conv.rs"],
 [("uninitialised word buffers","common/buf.rs"),("scratch areas of multiplication","mantissa/fft.rs")],
 [("uninitialised words","contents of a new buffer before it is filled","common/buf.rs")],["all results"])
p("A07","Memory is only accessed inside live blocks",
 "No operation writes outside the memory it has allocated or after giving it back, frees a block twice or with a wrong size, or crashes on an invalid access - on success and on every failure path.",
 ["fault_sequences","inputs","programs"],
 "for every program and operand size, and every allocation failure on the way",
 "Unsafe length changes and carry intrinsics are only checked by tests through final values; damage beside a block or on an abandoned failure path shows up elsewhere or not at all.",
 ["common/buf.rs","common/util.rs","mantissa/mantissa.rs","mantissa/fft.rs","mantissa/toom3.rs"],
 [("unsafe buffer lengths","common/buf.rs"),("intrinsics writing through pointers","common/util.rs")],
 [("buffer length and capacity","must cover every word accessed","common/buf.rs")],["the process's memory"])
p("A08","Memory is given back",
 "When all values, caches and contexts of a thread have been dropped and the thread has ended, every block allocated on their behalf has been freed, also after operations that failed or were unwound through. Repeating the same requests over and over on the same caches does not make the memory in use grow.",
 ["histories","fault_sequences"],
 "for every program, every number of repetitions, every failure and unwinding on the way",
 "Tests never look at memory in use; a leak on a failure path, or a cache that grows with every repetition, passes them all.",
 ["common/buf.rs","ops/consts/mod.rs","common/consts.rs","ctx.rs","mantissa/conv.rs"],
 [("ownership of word buffers","common/buf.rs"),("cache replacement","ops/consts/pi.rs")],
 [("memory in use","bytes and blocks held by values and caches","ops/consts/mod.rs")],["the allocator"])
p("A09","Formatting survives sinks that fail, panic or call back",
 "When the destination of a formatting call returns an error after any number of bytes, the call returns the error and has delivered exactly that prefix of the text; when it panics, the panic passes through and later operations of the thread are unaffected; when it formats or parses numbers itself, both texts are right. Formatting and parsing also work while a thread is being torn down.",
 ["fault_sequences","histories","schedules"],
 "for every value, radix, position of the failure, kind of misbehaviour, nesting and later history of the thread",
 "Tests only format into strings, which never fail, never panic and never call back into the library.",
 ["ext.rs","strop.rs","common/consts.rs"],
 [("formatting traits","ext.rs"),("thread-local cache","common/consts.rs")],
 [("thread's cache","borrowed while formatting","common/consts.rs")],["the destination of Display, Binary, Octal and UpperHex formatting","parsing and formatting in destructors of thread-local values"])
p("A10","Serialisation reports stream and memory failures",
 "Serialising a number hands the stream exactly its decimal text in one string; when the stream refuses it, or memory runs out, an error comes back and the stream never receives a text that stands for another value. Deserialising any token gives the number the token denotes or an error, never a panic or an abort, also when memory runs out at any point.",
 ["fault_sequences","inputs"],
 "for every value and token of the serialisation data model, every stream failure and every failing allocation",
 "Tests round-trip three values through one in-memory JSON stream that never fails.",
 ["for_3rd/ser.rs","for_3rd/de.rs","ext.rs"],
 [("serialisation","for_3rd/ser.rs"),("deserialisation","for_3rd/de.rs")],
 [("token","string or number handed over by the stream","for_3rd/de.rs")],["the serializer and the deserializer"])
p("A11","Every operation makes bounded progress",
 "An operation needs no more than a small multiple of the work it needs in a fresh state, and no more than a small constant more stack, whatever its cache, context and thread were used for before, and also when allocations fail during it or have failed before it. In particular no failure, no history and no operand - not even one whose result is exact or lies halfway between two numbers - makes an operation on numbers loop without end.",
 ["histories","fault_sequences"],
 "for every history of the caches and contexts involved and every pattern of failing allocations, bounded by three to four times the fault-free work plus a constant",
 "Retry loops that raise the working precision until the result can be rounded terminate only if errors and stale caches do not feed them; tests never fail an allocation nor measure work.",
 ["num.rs","ops/consts/pi.rs","ops/consts/e.rs","ops/log.rs","ops/pow.rs","ops/sin.rs","conv.rs","astro-float-macro/src/lib.rs"],
 [("retry until roundable","ops/consts/pi.rs"),("expression evaluation loop","astro-float-macro/src/lib.rs")],
 [("working precision","raised on every retry","ops/log.rs")],["number of steps and stack an operation uses"])
p("A12","Random numbers honour their contract for every entropy source",
 "Whatever the entropy source delivers - all zeros, all ones, repeated or extreme words, ordinary noise - a random number has exactly the requested precision, is normalised, not zero and exact, and its exponent lies in the requested range; the request never panics or loops. When memory runs out it reports the documented error.",
 ["fault_sequences","inputs"],
 "for every sequence of words from the entropy source, every precision and exponent range",
 "Tests draw from the real generator, which practically never delivers the extreme words where the contract can break.",
 ["num.rs","mantissa/mantissa.rs","ext.rs"],
 [("random mantissa","mantissa/mantissa.rs"),("random exponent","num.rs")],
 [("entropy","words drawn from the generator","num.rs")],["random_normal"])
p("A13","A context is its settings and nothing else",
 "A context reports the settings it was created with or last given (exponent limits clamped to their documented ranges), its constants and every expression evaluated through it equal those computed from scratch with the same settings, and a clone, or a context rebuilt from its parts, behaves the same and is independent of the original. Failed operations change no setting.",
 ["histories","fault_sequences","programs"],
 "for every sequence of creating, changing, cloning, rebuilding and using contexts, with operations failing for lack of memory in between",
 "Tests create one context and use it once; stale settings or constants after changes need a sequence of changes and uses.",
 ["ctx.rs","ops/consts/mod.rs","macro_util.rs","astro-float-macro/src/lib.rs"],
 [("context state","ctx.rs"),("expression macro reading the context","astro-float-macro/src/lib.rs")],
 [("settings","precision, rounding mode, exponent limits","ctx.rs"),("cache","constants owned by the context","ctx.rs")],["context getters, constants and expr! results"])

NA=[]
def na(id,title,statement,text,why,files,mech,reason):
    p(id,title,statement,["inputs"],text,why,files,mech,[("operands","arguments of the call",files[0])],["results"])
    NA.append({"property":id,"reason":reason})
PURE="A pure function of its arguments: no schedule, clock, I/O, entropy or failure can influence it, so there is nothing for a simulator to inject or reorder, and searching operands is testing by input, not simulation. "
na("N01","Basic arithmetic is correctly rounded","Addition, subtraction, multiplication, division, reciprocal, remainder, integer power, square and cube root return the exact result rounded to the requested precision in the requested rounding mode.",
 "for every operand, precision and rounding mode","Tests compare random operands with MPFR.",["num.rs","mantissa/mantissa.rs","ops/sqrt.rs","ops/cbrt.rs"],[("arithmetic","num.rs")],
 PURE+"What failures, histories, threads and memory can do to these functions is decided under A01-A03, A05-A07 and A11.")
na("N02","Elementary functions are correctly rounded","Exponential, logarithmic, power, trigonometric and hyperbolic functions and their inverses return the true value correctly rounded, including near zeros, poles and exact cases.",
 "for every operand, precision and rounding mode","Tests compare random operands with MPFR.",["ops/log.rs","ops/pow.rs","ops/sin.rs","ops/tan.rs","ops/atan.rs"],[("series and argument reduction","ops/series.rs")],
 PURE+"The histories of the cache these functions use, and failing allocations inside them, are decided under A01-A03.")
na("N03","Special values follow the documented rules","NaN, infinities, signed zeros, subnormal numbers, overflow and underflow propagate through every operation as documented.",
 "for every combination of special operands","Tests enumerate a table of cases.",["ext.rs","num.rs"],[("special value dispatch","ext.rs")],PURE)
na("N04","Comparison is a consistent order","Comparison, equality and magnitude comparison of numbers of any precision agree with the real values; infinities and NaN compare as documented.",
 "for every pair of values","Tests compare a few pairs.",["num.rs","ext.rs"],[("comparison","num.rs")],PURE)
na("N05","Text conversion round-trips","Formatting and parsing in any radix give back the same number, and parsing returns the correctly rounded value of any numeral.",
 "for every value, radix and precision","Tests use random values.",["conv.rs","strop.rs","parser.rs"],[("radix conversion","conv.rs")],PURE+"Failing allocations, caches and destinations of these conversions are decided under A01-A03, A09 and A10.")
na("N06","The parser accepts or rejects any text without failing","Every text is parsed to the number it denotes or rejected with an error; no text makes the parser panic, overflow or run away.",
 "for every text","Tests parse a list of examples.",["parser.rs","conv.rs"],[("parser","parser.rs")],PURE)
na("N07","Conversions from machine numbers are exact","Conversion from every integer and floating-point type, and composition from raw parts, gives exactly that value rounded to the requested precision.",
 "for every machine number","Tests convert a few values.",["num.rs","ext.rs"],[("conversions","num.rs")],PURE)
na("N08","Expressions are compensated to the requested accuracy","An expression evaluated by the macro equals the exact value of the expression correctly rounded to the context's precision.",
 "for every expression and operand","Tests evaluate a few expressions.",["macro_util.rs","astro-float-macro/src/lib.rs"],[("error compensation","macro_util.rs")],PURE+"Expressions under failing allocations, shared caches and changing contexts are decided under A01-A03 and A13.")

V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(V+'/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
NOTE="Seeded search over simulated executions of the real library (instrumented std build with overflow and debug checks); a clean result means no violation among the executions reported in the evidence file. "
LN={
"A01":"Allocation failures at every site reached plus random patterns; expected results from a fault-free run of the same code. Memory limits of the simulated machine included.",
"A02":"Reference: the same program with the failed calls left out, each call on fresh caches and in a new thread.",
"A03":"Reference: each call on fresh caches and in a new thread.",
"A04":"Reference: independent big-integer computation of the four constants to 40000 bits (refc.rs), so errors common to all histories are seen too.",
"A05":"Reference: each thread's program run alone. Sequentially consistent interleavings only: one thread runs at a time, switched at control-flow edges of the library, blocking calls and thread starts.",
"A06":"Reference: the same plan on zero-filled memory with plain placement.",
"A07":"Red zones, poisoned free blocks, quarantine, guard pages and size checks verified after every operation; the standard library checks the conditions of its unsafe operations. Reads of stale or neighbouring memory are seen only through A06 or when they fault.",
"A08":"Live blocks and bytes counted by the simulated allocator; growth compared between rounds of identical requests.",
"A09":"Reference: the text written to a well-behaved destination from a fresh thread.",
"A10":"Serializer and deserializer are simulator stubs (17 token kinds); reference: Display text, parsing and from_* conversions of the same values.",
"A11":"Work counted in control-flow edges of the library; bound 3x (failing) or 4x (later) of the fresh-state work plus 300000; elementary functions of operands up to 4096 bits also against an absolute bound. Expressions evaluated by expr! whose exact value is zero or representable are not judged: no precision suffices for them.",
"A12":"Entropy source replaced under the rand crate; ten modes. ThreadRng's own algorithm is a stub.",
"A13":"Reference: small settings model plus context-free evaluation with fresh caches.",
}
checks=[]
for x in P:
    i=x["id"]
    if i[0]!='A': continue
    checks.append({"property":i,"quick_cmd":f"./check.sh {i} quick","thorough_cmd":f"./check.sh {i} thorough","evidence_file":f"evidence/{i}.json",
     "technique":"deterministic simulation with fault injection (seeded search, replayable)","level":"exploration","level_note":NOTE+LN[i]})
M={"version":1,"setup_cmd":"./sim/build.sh","hooks":{"guard":"none: no hook was needed in /repo","enable":"The simulator builds /repo unchanged; seams are the global allocator, a patched rand crate in /verif/sim/vendor, interposed futex/clock/thread calls and compiler edge instrumentation.","source_commits":[]},
 "checks":checks,"not_applicable":NA,"notes":"See DESIGN.md. Known findings: known-findings.json. Replay a failure with: target/x86_64-unknown-linux-gnu/debug/afsim replay <file>"}
json.dump(M,open(V+'/MANIFEST.json','w'),indent=1); open(V+'/MANIFEST.json','a').write('\n')
for x in P: assert len(x["title"])<=80,x["title"]
