#!/usr/bin/env python3
# Generates properties.jsonl (kept as a script so the long texts stay reviewable).
import json, sys, os
P=[]
def prop(id,title,statement,over,text,why,files,mech,state=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
           anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech]))
    if state: d['anchors']['state']=[dict(name=n,meaning=m) for n,m in state]
    P.append(d)
L='lib/libloong/'
prop('P01','Guest loads and stores stay inside the guest arena',
 'No guest load or store, of any width and at any address, reads or writes host memory outside the guest memory arena (and the small guard area allocated behind it). An access whose address is not guest memory ends in a memory exception delivered to the host, with the guest registers and memory it would have modified unchanged.',
 ['inputs','programs'],'every memory instruction, every 64-bit effective address, every arena layout (read-only and writable boundaries)',
 'Tests touch a handful of valid addresses; confinement is a statement about all 2^64 addresses and every access width.',
 [L+'memory_inline.hpp',L+'memory.hpp',L+'la_instr_impl.hpp',L+'bytecode_impl.cpp'],
 [('bounds-checked read/write','memory_inline.hpp'),('arena over-allocation','memory.cpp')],[('arena and its region boundaries','which guest addresses are readable / writable')])
prop('P02','Guest stores never modify read-only guest memory',
 'Guest stores and host-side guest-memory writes that go through the checked interface can modify only addresses in the writable part of the arena: program text, read-only data and the unmapped low area never change. A write that starts outside the writable part is rejected with an exception and changes nothing.',
 ['inputs','programs'],'every store width, every address, every bulk length, every placement of the read-only boundary',
 'Tests check one or two read-only addresses; the boundary arithmetic is relevant at every address including wrap-around.',
 [L+'memory_inline.hpp',L+'memory_rw.cpp',L+'memory.cpp'],[('writable-range check','memory.hpp'),('bulk writes','memory_rw.cpp')])
prop('P03','Bulk guest-memory access by the host is bounds checked for its whole length',
 'Copying to or from guest memory, filling, comparing, measuring strings and obtaining views of guest memory either stay entirely inside the arena or raise an exception, for every address and every length. No length, however large, wraps around or lets the host touch memory outside the arena, and a call that succeeds has exactly the effect of the corresponding byte-wise operation.',
 ['inputs'],'every guest address and 64-bit length, every arena layout',
 'Tests use small in-range lengths; overflow and end-of-arena cases need specific 64-bit values.',
 [L+'memory_rw.cpp',L+'memory.cpp',L+'memory.hpp',L+'memory_inline.hpp'],[('copy/memset/memcmp','memory_rw.cpp'),('views and strings','memory.cpp')])
prop('P04','Integer instructions compute what the LoongArch ISA defines',
 'Executing any implemented integer arithmetic, logical, shift, rotate, bit-field, count, byte/bit-reversal, multiply, divide, compare, select or immediate-building instruction leaves in the destination register exactly the value the LoongArch manual defines. No other register, and no memory, changes; the zero register always reads as zero; and no operand value makes the host crash.',
 ['inputs','programs'],'every operand value and every register assignment (including aliasing and the zero register) and every immediate of every implemented integer instruction',
 'Each instruction has 2^64+ operand combinations and 2^15+ encodings; tests sample at most a few per instruction.',
 [L+'la_instr_impl.hpp',L+'bytecode_impl.cpp',L+'threaded_rewriter.cpp'],[('instruction handlers','la_instr_impl.hpp'),('fast-path handlers','bytecode_impl.cpp')])
prop('P05','Loads, stores and atomics have LoongArch semantics',
 'Every implemented load, store, indexed, pointer, floating-point/vector and atomic memory instruction computes its effective address as the ISA defines, transfers exactly the defined number of bytes in little-endian order, extends loaded values as defined and returns the old value for atomics. No other byte of guest memory and no other register changes.',
 ['inputs','programs'],'every base/index value, immediate, register assignment and memory content',
 'Tests sample few address/offset/sign combinations; sign extension and offset scaling errors show only for particular immediates or values.',
 [L+'la_instr_impl.hpp',L+'la_instr_atomic.hpp',L+'bytecode_impl.cpp'],[('load/store handlers','la_instr_impl.hpp'),('atomic handlers','la_instr_atomic.hpp')])
prop('P06','Branches and jumps go exactly where the ISA says',
 'For every branch and jump instruction, operand values, flag values and program location, execution continues at the ISA-defined target when the condition holds and at the next instruction otherwise, and link registers receive the return address. Targets that are not executable guest code are never executed: they end in an exception.',
 ['inputs','programs'],'every offset encodable (16/21/26 bit), every operand value, every PC, near and far targets',
 'Test programs only contain short branches; far displacements and edge-of-segment targets are never taken.',
 [L+'bytecode_impl.cpp',L+'threaded_rewriter.cpp',L+'la_instr_impl.hpp',L+'threaded_dispatch.cpp',L+'cpu.cpp'],[('branch rewriting','threaded_rewriter.cpp'),('branch dispatch','threaded_dispatch.cpp')])
prop('P07','Floating-point and vector instructions act on the right lanes',
 'Every implemented FP and SIMD instruction reads and writes exactly the lanes, element widths, signedness, immediates and condition codes the ISA defines, applying the defined element operation to each lane, and leaves all other registers and guest memory unchanged.',
 ['inputs','programs'],'every operand bit pattern, register assignment and immediate; FP arithmetic itself taken as an uninterpreted (host IEEE) operation',
 'Lane, signedness and immediate errors are visible only for particular values; most vector instructions have at most one test.',
 [L+'la_instr_impl.hpp',L+'bytecode_impl.cpp',L+'registers.hpp'],[('FP/vector handlers','la_instr_impl.hpp')])
prop('P08','Every 32-bit word decodes to the right instruction or to none',
 'For every possible 32-bit instruction word, decoding terminates and yields the instruction the ISA assigns to that encoding, or the unimplemented-instruction entry when the encoding is not supported; it never yields a different instruction. Executing an unsupported or undefined word raises an exception and changes no register or memory.',
 ['inputs','programs'],'all 2^32 instruction words',
 'Tests decode only the words compilers happened to emit; overlapping masks are invisible to them.',
 [L+'la64.cpp',L+'la_instr.hpp'],[('decoder','la64.cpp')])
prop('P09','The fast interpreter agrees with one-at-a-time execution',
 'Running code through the pre-decoded, rewritten fast path gives the same registers, memory, program counter and exception as decoding and executing each original instruction word individually, for every instruction word, at every position in a program and for every machine state; the bounded and the unbounded run modes agree too.',
 ['programs','inputs'],'every instruction word (rewritten and not), every register/memory state, both dispatch modes',
 'Existing tests run only one path per program and compare final exit codes.',
 [L+'decoder_cache.cpp',L+'threaded_rewriter.cpp',L+'bytecode_impl.cpp',L+'threaded_dispatch.cpp',L+'threaded_inaccurate_dispatch.cpp',L+'cpu.cpp'],
 [('bytecode selection','decoder_cache.cpp'),('instruction rewriting','threaded_rewriter.cpp'),('dispatch loops','threaded_dispatch.cpp')])
prop('P10','Instruction budgets are honoured and counted exactly',
 'When a run ends without an exception, the reported instruction count equals the number of guest instructions executed, straight-line blocks of any length included. Any program that keeps executing is stopped no later than the first jump it takes at or after its instruction limit, so no guest loop can run forever under a limit.',
 ['programs','histories'],'every block length and layout, every limit, every starting counter',
 'Tests use one endless loop with tiny blocks; long blocks, odd layouts and limits around block boundaries are not covered.',
 [L+'decoder_cache.cpp',L+'decoder_cache.hpp',L+'threaded_dispatch.cpp',L+'machine_inline.hpp',L+'instruction_counter.hpp'],[('block accounting','decoder_cache.cpp'),('limit checks','threaded_dispatch.cpp')])
prop('P11','Stopping and resuming execution does not change the program outcome',
 'A run interrupted by its instruction limit or by a stop request and then resumed executes exactly the same sequence of guest instructions as an uninterrupted run; a stop request made from a system call takes effect right after that call with the program counter at the following instruction.',
 ['histories','programs'],'every limit value and stop point, every program state at that point',
 'Tests pause a single program once.',
 [L+'threaded_dispatch.cpp',L+'machine_inline.hpp',L+'machine.cpp'],[('stop/resume','threaded_dispatch.cpp')])
prop('P12','Pre-decoding yields an execution cache faithful to the code at every address',
 'After loading executable code of any content and size, every 4-byte slot of the cache describes the instruction at that address and the distance to the end of its straight-line block, the cache is terminated by an entry that stops execution with an exception, and running off the end or entering at any slot never reads past the cache.',
 ['inputs','programs'],'every code content, size and base address within the stated bounds',
 'Tests load only compiler output with short blocks and well-formed sections.',
 [L+'decoder_cache.cpp',L+'decoded_exec_segment.cpp',L+'memory.cpp'],[('cache population','decoder_cache.cpp')])
prop('P13','Loading a hostile ELF image is memory safe',
 'Constructing a machine from an arbitrary byte string either raises an exception or yields a machine; in neither case does the loader read outside the supplied bytes or write outside the guest arena, and it never fails to terminate.',
 ['inputs'],'every header, program-header, section-header, symbol-table and relocation content and every file length',
 'Tests load well-formed files plus a few truncations.',
 [L+'elf_loader.cpp',L+'memory.cpp',L+'elf.hpp'],[('program loader','elf_loader.cpp'),('symbol parsing','elf_loader.cpp')])
prop('P14','A loaded program image is placed exactly as its headers say',
 'When an image is accepted, guest memory at each loadable segment holds exactly the file bytes followed by zeroes, the entry point and executable region equal those of the image, stack, heap and mapping areas lie inside the arena without overlapping the image, and the read-only and writable boundaries match the segment permissions.',
 ['inputs','configurations'],'every segment address, size, file offset and flags; every configured memory size',
 'Tests use images from one linker with one layout.',
 [L+'elf_loader.cpp',L+'memory.cpp'],[('segment loading','elf_loader.cpp'),('layout','memory.cpp')])
prop('P15','Symbol lookups are correct and bounded',
 'Looking a name up returns the value of a function or data symbol of the image with exactly that name, or zero if there is none; looking an address up returns a symbol whose range covers it if there is one, otherwise the closest symbol that starts before it, or nothing. Neither ever reads outside the supplied image.',
 ['inputs'],'every symbol and string table content within bounds',
 'Tests look up a few existing names in well-formed images.',
 [L+'memory.cpp',L+'elf_loader.cpp'],[('symbol lookup','memory.cpp')])
prop('P16','The native guest heap never hands out overlapping or undersized blocks',
 'For every history of allocations, frees and reallocations, each live block lies inside the heap, is at least as large as requested, is suitably aligned and is disjoint from every other live block; accounted free plus used bytes equal the heap size. A failed request changes nothing, and freeing or resizing an address that is not a live block is rejected.',
 ['histories','inputs'],'every operation sequence and every 64-bit request size (inductive step over arbitrary consistent heap states of bounded chunk count)',
 'Tests run fixed allocation patterns; size rounding/overflow and coalescing order matter for specific histories.',
 [L+'native/heap.hpp'],[('malloc/free/realloc','native/heap.hpp')],[('chunk list','ordered partition of the heap into used and free chunks')])
prop('P17','Accelerated memory and string system calls behave like the C library',
 'The accelerated copy, move, fill, compare, search and string-length/compare calls return what the C library functions define and change exactly the defined bytes of guest memory, including overlapping moves. Any pointer or length reaching outside guest memory yields an exception and never a host access outside the arena.',
 ['inputs'],'every pointer, length and memory content (contents bounded in length)',
 'Tests call each with one benign input.',
 [L+'machine_accelerate.cpp',L+'memory_rw.cpp'],[('native calls','machine_accelerate.cpp')])
prop('P18','Accelerated heap system calls keep guest allocations sound',
 'Guest malloc, calloc, realloc and free served by the host return either null or a block of guest memory of at least the requested total size inside the configured heap; calloc memory is zeroed and its size product cannot wrap; realloc preserves contents.',
 ['inputs','histories'],'every argument value, every heap state within the bound',
 'Tests never pass sizes near the 64-bit limit or products that overflow.',
 [L+'machine_accelerate.cpp',L+'native/heap.hpp'],[('heap calls','machine_accelerate.cpp')])
prop('P19','Anonymous mappings never overlap and never leave the arena',
 'Successive anonymous mapping requests without a fixed address return page-aligned ranges that are pairwise disjoint while mapped, wholly inside guest memory and not carrying over contents of an unmapped range, or an error; a fixed request is granted only inside the already mapped part of guest memory and moves nothing; unmapping releases only the range it names. No size or address argument makes the allocator wrap, move backwards over live mappings or hand out stack, heap or image memory.',
 ['histories','inputs'],'every size/address argument and every allocator position (inductive step)',
 'Tests map a few small blocks.',
 [L+'memory.cpp',L+'linux/syscalls.cpp'],[('mmap allocator','memory.cpp'),('mmap/munmap calls','linux/syscalls.cpp')])
prop('P20','Linux system calls touch only guest memory the caller may access',
 'Every emulated Linux system call, for every combination of argument values, reads guest input only from readable guest memory and writes results only to writable guest memory, never leaks host memory contents to the guest, never performs host file or process operations, terminates, and otherwise returns a value or negative error code as documented.',
 ['inputs','fault_sequences'],'every argument register value for every emulated call; host clock/entropy results arbitrary',
 'Tests issue well-formed calls from a C library.',
 [L+'linux/syscalls.cpp',L+'machine_inline.hpp'],[('system call handlers','linux/syscalls.cpp')])
prop('P21','System call dispatch reaches exactly the installed handler',
 'A system call number with an installed handler invokes that handler once; any other number, of any 64-bit value, goes to the unknown-call hook, which by default raises "unimplemented", and never indexes outside the handler table. A syscall instruction with a non-zero low code field is an immediate call: it runs the handler of that code and returns to RA. Handler results are returned to the guest in the result register without altering any other register, and a handler exception reaches the host.',
 ['inputs'],'every 64-bit system call number and result value',
 'Tests use valid numbers only.',
 [L+'machine_inline.hpp',L+'machine.cpp',L+'threaded_dispatch.cpp'],[('dispatch','machine_inline.hpp')])
prop('P22','Signal registration and delivery are bounded',
 'Registering and querying a signal action accepts only signal numbers 1 to 64; a query returns the handler (an instruction-aligned address), mask and alternate-stack flag last registered for that very signal, or the default. Sending a signal with a handler to the calling thread enters that handler with the signal number as argument and leaves the other registers and memory alone, on the alternate stack when the action asks for it and one is configured and enabled; signal 0 and signals without a handler enter nothing, and no number ever aliases another signal.',
 ['inputs','histories'],'every signal number (32-bit), handler address and flag value',
 'Tests register one or two valid signals.',
 [L+'posix/signals.cpp',L+'posix/signals.hpp',L+'linux/syscalls.cpp'],[('signal table','posix/signals.hpp'),('delivery','posix/signals.cpp')])
prop('P23','Thread switches preserve each guest thread exactly',
 'After any sequence of thread creation, yielding, blocking, waking and exiting, a thread that runs again has the register state it had when it was switched out, exactly one thread is current, a blocked thread resumes only when woken (the main thread also when no other thread can run), and every live thread is in exactly one of running, ready or blocked.',
 ['histories','schedules'],'every sequence of scheduler operations up to the stated length, arbitrary register contents',
 'Tests run a few pthread programs with one schedule each.',
 [L+'posix/threads.cpp',L+'posix/threads.hpp',L+'linux/syscalls_threads.cpp'],[('scheduler','posix/threads.cpp')],[('ready and blocked lists','which thread resumes next')])
prop('P24','Futex wait and wake never lose or fabricate a wake-up',
 'A futex wait blocks only if the word still holds the expected value and otherwise returns the retry error; a wake on an address releases up to the requested number of threads waiting on that address (and, for the bitset form, with an intersecting mask), returns how many it released, and releases no thread waiting on another address.',
 ['histories','schedules','inputs'],'every address, value, count and mask; every set of up to the stated number of waiters',
 'Tests exercise the C library mutex in one interleaving.',
 [L+'linux/syscalls_threads.cpp',L+'posix/threads.cpp'],[('futex','linux/syscalls_threads.cpp'),('block/wake','posix/threads.cpp')])
prop('P25','Host-to-guest calls pass arguments and return values faithfully',
 'Calling a guest function from the host places each argument (integers of every width and signedness, floats and, by address of a copy on the guest stack, strings and structs) in the register or stack slot of the LoongArch calling convention, keeps the stack aligned and inside the guest stack, and returns the guest result register; a preempting call that saves registers restores every register of the interrupted context, other than the result register when it returns normally.',
 ['inputs','configurations'],'every argument value for the supported parameter lists; every register state',
 'Tests call a few functions with small values.',
 [L+'machine_vmcall.hpp',L+'machine_inline.hpp'],[('argument setup','machine_vmcall.hpp'),('preemption','machine_vmcall.hpp')])
prop('P26','System call arguments and results convert without loss',
 'Reading the n-th system call argument as any supported host type yields the value the guest passed with ISA-conformant truncation or extension; string and view arguments describe exactly the guest bytes; setting a result stores it so that the guest reads the same value back, with 32-bit results sign-extended.',
 ['inputs'],'every register value and every supported type',
 'Tests use small positive values.',
 [L+'machine_inline.hpp',L+'machine.hpp'],[('argument access','machine_inline.hpp')])
prop('P27','The initial process stack follows the Linux ABI',
 'Setting up arguments and environment leaves a 16-byte aligned stack pointer below which nothing is stored, with argc, the argument pointers, the environment pointers and the auxiliary vector in ABI order, each pointer referring to a NUL-terminated copy of the corresponding string, all inside the writable part of guest memory.',
 ['inputs','configurations'],'argument/environment counts and string contents/lengths up to the stated bound; every stack address',
 'Tests start a C library with a few fixed strings.',
 [L+'machine.cpp'],[('stack setup','machine.cpp')])
prop('P28','Decoded code is shared only between machines running identical code',
 'Two machines share a pre-decoded code segment only if the segment was built from the same bytes at the same address with compatible memory configuration, and evicting or destroying a machine removes the cached segment only when nobody uses it any more.',
 ['histories','configurations'],'every pair of segment identities; every sequence of insert/find/evict up to the bound',
 'Tests share one program between two machines.',
 [L+'shared_exec_segment.hpp',L+'shared_exec_segment.cpp',L+'memory.cpp'],[('segment cache','shared_exec_segment.hpp')])
prop('P29','CRC32-C is computed correctly by every implementation',
 'The checksum used to identify code equals the CRC32-C of exactly the given bytes for every content, length and alignment, whichever of the hardware or software implementations is active, and can be computed incrementally with the same result.',
 ['inputs','configurations'],'every content up to the stated length, every alignment, both implementations',
 'Tests run one implementation on the build host.',
 [L+'util/crc32c.cpp',L+'util/crc32.hpp'],[('crc32c','util/crc32c.cpp')])
prop('P30','Host views of guest strings, vectors and arrays are faithful and bounded',
 'Reading and writing the guest representations of strings and vectors through the host helper types round-trips contents, sizes and capacities, follows the small-string layout rules, and rejects structures whose pointers or sizes leave guest memory; strings held in vectors refer to their own storage, freeing returns everything they own, and a structure the guest has corrupted never ends the host.',
 ['inputs'],'every 64-bit pointer/size/capacity in the guest structure, contents up to the stated bound',
 'Tests use structures produced by a correct guest.',
 [L+'guest_datatypes.hpp'],[('guest string/vector','guest_datatypes.hpp')])
prop('P31','Binary-translated code agrees with the interpreter',
 'For every instruction the translator emits code for, the emitted code transforms registers, memory, program counter and counters exactly as the interpreter does, for every operand and state; instructions it does not support are handed to the interpreter.',
 ['programs','inputs'],'each supported instruction with representative register assignments; all machine states',
 'The translator is not exercised by the test suite at all.',
 [L+'tr_emit.cpp',L+'tr_translate.cpp',L+'tr_api.cpp'],[('emitter','tr_emit.cpp')])
prop('P32','Disassembly and diagnostics are safe on every instruction word',
 'Printing any 32-bit word as assembly, the registers, or a backtrace of any guest state with symbols of any names terminates and stays within its buffers, including the terminator; printing an instruction does not depend on guest state, and none of them modifies it.',
 ['inputs'],'all 2^32 instruction words, any program counter',
 'Tests print a few instructions.',
 [L+'la_instr_printers.hpp',L+'cpu.cpp'],[('printers','la_instr_printers.hpp')])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),'properties.jsonl'),'w') as f:
    for d in P: f.write(json.dumps(d)+'\n')
