#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (regenerates it deterministically)."""
import json, os
D='include/boost/atomic/detail/'
P=[]
def p(id,title,statement,over,q,why,files,mech,observe=None,state=None):
    a={'files':files,'mechanism':[{'name':n,'where':w} for n,w in mech]}
    if state: a['state']=[{'name':n,'meaning':m} for n,m in state]
    if observe: a['observe_at']=observe
    P.append({'id':id,'title':title,'statement':statement,'quantifier':{'over':over,'text':q},'why_tests_cant':why,'anchors':a})

p('C01','Read-modify-write results on integral atomics',
 'For every integral type of 1 to 16 bytes, each arithmetic and bitwise read-modify-write operation (fetch/new-value/opaque/result-test forms, negate, complement, the operators) leaves the object holding exactly the mathematical result modulo 2^N of applying the operation to the previous value, and returns exactly the previous value, the new value, or the documented truth value of it. This holds for every operand and every prior value, for atomic objects and atomic references alike, in native and emulated modes.',
 ['inputs','configurations'],'every prior value and operand of every integral width, every operation and result form, atomic and atomic reference, each supported backend selection on x86-64 Linux',
 'The tests use a handful of values per width and never the full operand space; the asm back ends have a separate hand-written body per width and per operation.',
 [D+'atomic_impl.hpp',D+'atomic_ref_impl.hpp',D+'extra_ops_gcc_x86.hpp',D+'extra_ops_generic.hpp',D+'core_arch_ops_gcc_x86.hpp',D+'core_ops_gcc_atomic.hpp',D+'core_operations_emulated.hpp',D+'extra_ops_emulated.hpp'],
 [('value operations',D+'core_arch_ops_gcc_x86.hpp'),('extra operations (asm)',D+'extra_ops_gcc_x86.hpp'),('CAS-loop operations',D+'extra_ops_generic.hpp')],['return value','object bytes'])
p('C02','Every operation is one indivisible transition',
 'Whatever other threads do to the object meanwhile, each operation on an atomic object takes effect as exactly one indivisible transition of the whole object (or one indivisible read of it), its result being consistent with that one transition. It modifies no bytes outside the object, and never reads or writes any part of the object in a way other operations on it could observe half-done.',
 ['schedules','inputs'],'every interleaving of any number of threads performing any operations on the same object, every value, every supported configuration',
 'Stress tests sample a few schedules; a window between a load and a store is only hit by chance, and x86 hides most of them.',
 [D+'core_arch_ops_gcc_x86.hpp',D+'core_ops_gcc_atomic.hpp',D+'extra_ops_gcc_x86.hpp',D+'extra_ops_generic.hpp',D+'fp_ops_generic.hpp',D+'extra_fp_ops_generic.hpp',D+'core_operations_emulated.hpp'],
 [('single locked instruction or CAS loop',D+'extra_ops_gcc_x86.hpp'),('critical section of the emulated operations',D+'core_operations_emulated.hpp')],['sequence of accesses to the object'])
p('C03','Memory order is at least what was requested',
 'For every operation and every memory order valid for it, the access by which the operation takes effect is ordered at least as strongly as the requested order, including the order applied when a comparison fails and the default order (sequentially consistent) when none is given. Neither the compiler nor the processor may move other accesses across it in a direction the requested order forbids.',
 ['inputs','schedules','configurations'],'every operation, every valid (also run-time) memory-order argument and pair of orders, every backend selection on x86-64, all schedules',
 'x86 hardware hides nearly all missing ordering, and tests use few order arguments; a too weak order shows only on another compiler version or CPU.',
 [D+'memory_order_utils.hpp',D+'gcc_atomic_memory_order_utils.hpp',D+'core_ops_gcc_atomic.hpp',D+'core_arch_ops_gcc_x86.hpp',D+'extra_ops_gcc_x86.hpp',D+'atomic_impl.hpp',D+'atomic_ref_impl.hpp',D+'fence_arch_ops_gcc_x86.hpp'],
 [('order conversion',D+'gcc_atomic_memory_order_utils.hpp'),('failure order deduction',D+'memory_order_utils.hpp'),('fences around asm accesses',D+'core_arch_ops_gcc_x86.hpp')],['order of the machine-level access'])
p('C04','Compare-exchange contract',
 'A compare-exchange stores the desired value if and only if it returns true, and then the object held a value representation equal to the expected one at that instant; when it returns false the object is left unchanged and the expected argument receives the complete value the object held. The strong form returns false only if the object really held a different value, and on success the expected argument is left as it was.',
 ['inputs','schedules'],'every expected, desired and current value of every type category and size, both forms, every order pair, every interleaving with other operations',
 'Tests try two or three values per type single-threaded and cannot reach interleaved spurious failures or partial updates of the expected value.',
 [D+'atomic_impl.hpp',D+'atomic_ref_impl.hpp',D+'core_arch_ops_gcc_x86.hpp',D+'core_ops_gcc_atomic.hpp',D+'core_operations_emulated.hpp',D+'cas_based_exchange.hpp'],
 [('compare-exchange paths for integral, enum, class, floating-point and pointer types',D+'atomic_impl.hpp')],['return value','expected argument','object bytes'])
p('C05','Emulated operations on an object exclude each other',
 'When an object is not lock-free, all operations that touch it - of any kind, from atomic objects or references, including the waiting and notifying ones - are performed while holding one and the same internal lock determined only by the address of the object, and this lock is always released before the operation returns. Selecting the lock never reaches outside the table of locks, for any address.',
 ['inputs','schedules','programs'],'every object address, type and size, every pair of operations, every path through them',
 'Tests cannot see which lock is used; a mismatch for some addresses or some operation only shows as a rare lost update.',
 [D+'lock_pool.hpp',D+'core_operations_emulated.hpp',D+'extra_ops_emulated.hpp',D+'wait_ops_emulated.hpp',D+'fp_ops_emulated.hpp',D+'extra_fp_ops_emulated.hpp','src/lock_pool.cpp'],
 [('scoped lock',D+'lock_pool.hpp'),('lock index selection','src/lock_pool.cpp')],['lock acquired by each operation'],[('lock pool','table of locks indexed by a hash of the object address')])
p('C06','Internal lock: mutual exclusion and no lost wakeup',
 'The internal lock that protects emulated and waiting operations is held by at most one thread at a time, hands over all writes made under it to the next holder, and wakes a blocked thread whenever it is released while some thread is blocked on it. This holds for any number of threads, any interleaving and any spurious or interrupted system call.',
 ['schedules','fault_sequences'],'all interleavings of any number of threads locking and unlocking, all spurious wakeups and failed futex calls',
 'The contended and sleeping paths need precise interleavings, and a lost wakeup hangs only in a very small window.',
 ['src/lock_pool.cpp',D+'futex.hpp'],[('futex based lock with contended flag and post counter','src/lock_pool.cpp')],['lock word transitions','futex calls'],[('lock word','locked bit, contended bit, 30-bit counter')])
p('C07','Waiting-thread table of the internal locks is a faithful map',
 'The table that associates waiting threads with object addresses behaves as an exact map: looking an address up finds the entry created for this address and no other, entries of other addresses are never lost, moved apart from their address or overwritten when entries are added, removed or the table is reallocated, and an entry lives as long as some thread waits on it. All accesses stay within the allocated buffers, for any number of entries and any order of operations.',
 ['histories','inputs'],'every sequence of waits, wakeups and reallocations over any set of addresses and any table size',
 'Tests have at most a few waiters on one or two addresses; reallocation, removal in the middle and reuse of spare entries are barely reached.',
 ['src/lock_pool.cpp','src/find_address.hpp'],[('wait state list','src/lock_pool.cpp')],['returned wait state','contents of the table'],[('wait state list','parallel arrays of addresses and wait-state pointers')])
p('C08','Waiting returns only for a changed value or a timeout',
 'An untimed wait returns only a value it really read from the object with the requested order and that differs from the old value given; a timed wait reports a timeout only after the deadline and only together with a value equal to the old one, and otherwise reports a really read value that differs from the old one. Spurious wakeups, interrupted system calls, or values that change and change back never make a wait return wrongly.',
 ['schedules','inputs','fault_sequences'],'every interleaving with modifying and notifying threads, every system call outcome, every old value, type, size and clock',
 'Tests cannot provoke spurious wakeups or an interrupted call, nor ABA value histories, and test only simple timelines.',
 [D+'wait_ops_futex.hpp',D+'wait_ops_generic.hpp',D+'wait_ops_emulated.hpp',D+'atomic_impl.hpp',D+'atomic_ref_impl.hpp',D+'atomic_flag_impl.hpp'],
 [('futex waits',D+'wait_ops_futex.hpp'),('lock-pool waits',D+'wait_ops_generic.hpp')],['returned value and timed-out flag'])
p('C09','No notification is lost',
 'A thread that blocks in a wait does so only while the object still holds the old value it was given, decided atomically with respect to notifications; any notification issued after a change of the value wakes at least one (or, for the all-form, every) thread that was blocked on this object. A notification for one object never consumes the wakeup of a thread blocked on another object.',
 ['schedules','histories'],'all interleavings of waiters, modifiers and notifiers on any number of objects, including objects sharing an internal lock',
 'The window between the check of the value and going to sleep is a few instructions wide; tests mask a loss with generous timing.',
 [D+'wait_ops_futex.hpp',D+'wait_ops_generic.hpp',D+'wait_ops_emulated.hpp','src/lock_pool.cpp',D+'futex.hpp'],
 [('futex wait and notify',D+'wait_ops_futex.hpp'),('condition variable with requeue','src/lock_pool.cpp')],['arguments of futex calls','blocked threads woken'])
p('C10','Deadlines are converted without error',
 'A timed wait never reports a timeout before its deadline or after less than its full duration, for every clock, duration type and value including negative, zero, sub-nanosecond and extreme ones. The time handed to the operating system is always well formed (nanoseconds within one second), is rounded up rather than down, and never overflows or wraps.',
 ['inputs'],'every time point and duration value of the supported clocks and integral periods, relative and absolute forms',
 'Tests use a few hundred milliseconds; boundary values, second carries, pre-epoch and very large times are never exercised.',
 [D+'chrono.hpp',D+'wait_ops_futex.hpp',D+'wait_ops_generic.hpp','src/lock_pool.cpp','include/boost/atomic/posix_clock_traits_fwd.hpp'],
 [('time conversion for futex waits',D+'wait_ops_futex.hpp'),('time conversion for lock-pool waits','src/lock_pool.cpp')],['timespec passed to the system','timed-out flag'])
p('C11','Floating-point atomics',
 'Floating-point atomics apply addition, subtraction, negation and their opaque and new-value forms to the actual previous value as one transition and return the documented value, compare by value representation rather than by numeric equality, and keep every bit pattern intact through load, store, exchange and compare-exchange. Padding bits of extended types never influence a comparison or a result.',
 ['inputs','schedules'],'every bit pattern including NaNs, infinities, signed zeros and values with garbage padding, float, double, long double, all interleavings',
 'Tests use ordinary numbers and cannot observe padding or NaN payload dependence.',
 [D+'fp_ops_generic.hpp',D+'extra_fp_ops_generic.hpp',D+'fp_ops_emulated.hpp',D+'extra_fp_ops_emulated.hpp',D+'bitwise_fp_cast.hpp',D+'atomic_impl.hpp',D+'atomic_ref_impl.hpp'],
 [('floating-point CAS loops',D+'fp_ops_generic.hpp'),('bitwise fp casts',D+'bitwise_fp_cast.hpp')],['return value','object bytes'])
p('C12','Values of every type pass through unchanged',
 'A value stored into, exchanged with or compared against an atomic object of any supported type - integers of either sign, bool, enumerations, pointers, and trivially copyable classes of any size, including sizes that are not a power of two - is read back with identical value, and two objects equal in value representation compare equal whatever their padding bits when the type\'s padding is known. Constructing and converting an atomic object yields exactly the given value.',
 ['inputs','configurations'],'every value of every type category, sizes 1 to 16 and beyond, every C++ standard mode, atomic and atomic reference',
 'Tests use few values per type and a few struct sizes; sign extension, padding and size rounding depend on value and type.',
 [D+'bitwise_cast.hpp',D+'integral_conversions.hpp',D+'storage_traits.hpp',D+'atomic_impl.hpp',D+'atomic_ref_impl.hpp'],
 [('bitwise conversion with padding clearing',D+'bitwise_cast.hpp'),('integral sign handling',D+'integral_conversions.hpp')],['loaded value','return values'])
p('C13','Address search finds the right entry',
 'Searching a (16-byte aligned) array of addresses returns the index of an entry equal to the sought address whenever one exists among the given number of entries, in each of the vectorised variants and the portable one, and otherwise returns an index not below the number of entries. This holds for arrays of every length and content, reads nothing beyond the array (its length rounded up to an even number of entries), and is independent of which variant the processor selects; a variant is selected only on a processor that reports the instructions it needs.',
 ['inputs','configurations'],'every array content and length, every address sought, every CPU capability combination',
 'No test calls the search; tests that reach it through waiting have tables of one or two entries, so no vector path runs.',
 ['src/find_address_sse2.cpp','src/find_address_sse41.cpp','src/lock_pool.cpp','src/find_address.hpp','src/bit_operation_tools.hpp','src/x86_vector_tools.hpp'],
 [('SSE2 search','src/find_address_sse2.cpp'),('SSE4.1 search','src/find_address_sse41.cpp'),('generic search and dispatch','src/lock_pool.cpp')],['returned index'])
p('C14','Capability reports are truthful',
 'What the capability macros, the lock-free queries and the native-wait queries of a type say is what its operations do: a type reported lock-free never takes an internal lock in any operation, one reported as natively waiting never uses the lock table to wait, run-time and compile-time answers agree, and lock-free objects are adequately aligned. The size-specific, type-specific and macro-level answers are mutually consistent.',
 ['configurations','programs'],'every type, size and feature configuration, every operation',
 'Tests only print or spot check these values in the configuration at hand; they do not relate them to the code executed.',
 [D+'capabilities.hpp',D+'wait_capabilities.hpp',D+'caps_gcc_atomic.hpp',D+'caps_arch_gcc_x86.hpp',D+'wait_caps_futex.hpp',D+'atomic_impl.hpp',D+'atomic_ref_impl.hpp'],
 [('capability macros',D+'capabilities.hpp'),('wait capability macros',D+'wait_capabilities.hpp')],['macro values','locks taken'])
p('C15','Flag operations',
 'Setting a flag atomically makes it set and returns whether it was set before, clearing makes it clear, testing reports its state without changing it, and a default constructed flag is clear, each with at least the requested memory order. Waiting on a flag returns only the state opposite to the given one.',
 ['inputs','schedules','configurations'],'both states, every valid order, all interleavings, flag and inter-process flag, native and emulated',
 'Tests exercise a single-threaded sequence with default orders.',
 [D+'atomic_flag_impl.hpp','include/boost/atomic/atomic_flag.hpp','include/boost/atomic/ipc_atomic_flag.hpp'],
 [('flag implementation',D+'atomic_flag_impl.hpp')],['return value','flag state'])
p('C16','Pointer arithmetic on atomic pointers',
 'Addition and subtraction on an atomic pointer, in every result form and operator, move the pointer by exactly that many elements of the pointed-to type, as one indivisible transition, and return the documented previous or new pointer or its null test. This holds for every element size and every positive or negative offset.',
 ['inputs','schedules','configurations'],'every pointer, offset and element size, all interleavings, atomic and atomic reference',
 'Tests use two element types with small positive offsets.',
 [D+'atomic_impl.hpp',D+'atomic_ref_impl.hpp'],[('pointer specialisations',D+'atomic_impl.hpp')],['return value','object bytes'])
p('C17','Single-bit operations',
 'The bit test-and-set, test-and-reset and test-and-complement operations return the previous state of exactly the addressed bit and change only this bit, as one indivisible transition. This holds for every bit number within the width of the type and every prior value.',
 ['inputs','schedules','configurations'],'every bit index of every width, every prior value, all interleavings',
 'Tests check a few bit numbers; the asm variants handle widths and immediate and register operands separately.',
 [D+'extra_ops_gcc_x86.hpp',D+'extra_ops_generic.hpp',D+'extra_ops_emulated.hpp',D+'atomic_impl.hpp'],[('bit operations',D+'extra_ops_gcc_x86.hpp')],['return value','object bytes'])
p('C18','Fences order at least as requested',
 'A thread fence constrains both the compiler and the processor at least as strongly as the order given, for every order including sequentially consistent ones, and a signal fence constrains the compiler at least as strongly. Neither reads nor writes any program-visible object.',
 ['inputs','schedules','configurations'],'every order argument, every supported backend, all schedules',
 'A missing hardware fence is visible only through store-buffer reordering under a specific interleaving; a missing compiler fence only in some compilations.',
 ['include/boost/atomic/fences.hpp',D+'fence_ops_gcc_atomic.hpp',D+'fence_arch_ops_gcc_x86.hpp',D+'fence_ops_gcc_sync.hpp',D+'fence_operations_emulated.hpp'],[('fences','include/boost/atomic/fences.hpp')],['fence instruction'])
p('C19','Inter-process atomics depend only on the object itself',
 'Operations on inter-process atomic objects and references, including waiting and notifying, never use any process-local lock or table nor a process-private wait queue, so that they work between processes mapping the object at different addresses. Apart from that they obey the same value, atomicity, ordering and waiting contracts as the ordinary ones.',
 ['schedules','programs','configurations'],'every operation of the inter-process types of every lock-free size, any number of processes and mapping addresses',
 'Tests run in one process with one mapping, where a process-private primitive also works.',
 ['include/boost/atomic/ipc_atomic.hpp','include/boost/atomic/ipc_atomic_ref.hpp','include/boost/atomic/ipc_atomic_flag.hpp',D+'wait_ops_futex.hpp',D+'wait_ops_generic.hpp',D+'wait_operations.hpp'],
 [('inter-process wait operations',D+'wait_ops_futex.hpp')],['locks and futex flags used'])
p('C20','Waiting degrades safely when memory runs out',
 'If memory for a wait entry cannot be allocated, a wait still returns only under the same conditions as otherwise, releases the internal lock while it pauses so others can progress, and corrupts no shared table. Notifications remain correct for every other waiter.',
 ['fault_sequences','schedules'],'every allocation failure at every point of every sequence of operations, all interleavings',
 'No test injects allocation failures.',
 ['src/lock_pool.cpp',D+'lock_pool.hpp'],[('wait state allocation','src/lock_pool.cpp')],['returned value','table contents'])
p('C21','Process-exit cleanup releases only unused entries',
 'Cleanup of the internal tables at program end or library unload releases each unused entry exactly once and leaves entries still used by a waiting thread intact, so operations that run later still work. No memory is freed twice or used after being freed at any point.',
 ['histories','schedules'],'every table state at the time of cleanup, every operation sequence before and after it',
 'Tests end with no waiter left and cannot observe what cleanup did.',
 ['src/lock_pool.cpp'],[('cleanup','src/lock_pool.cpp')],['deallocations'])
p('C22','Reading never modifies the object',
 'A load, a failed comparison, a value test, a query or a wait never changes the object\'s value representation nor writes anything that another thread could observe as a different value. Loads of objects up to 8 bytes perform no write to the object at all, so they work on read-only memory.',
 ['inputs','schedules','configurations'],'every value, type and size, every read-only operation, all interleavings',
 'A transient write of the same or another value is invisible in single-threaded tests.',
 [D+'core_arch_ops_gcc_x86.hpp',D+'core_ops_gcc_atomic.hpp',D+'core_operations_emulated.hpp',D+'atomic_impl.hpp'],[('loads',D+'core_arch_ops_gcc_x86.hpp')],['writes to the object'])
p('C23','No undefined behaviour inside the library',
 'No valid use of the library executes an operation whose behaviour is undefined - signed overflow, out-of-range shift, use of an indeterminate value, misaligned or out-of-bounds access - and no internal assertion fails. In particular signed integral atomics wrap around silently in all forms.',
 ['inputs','schedules'],'every valid argument and prior value, every operation and width, all interleavings',
 'Sanitizers see only the values the tests use, and not inline assembly.',
 [D+'extra_ops_generic.hpp',D+'core_operations_emulated.hpp',D+'extra_ops_emulated.hpp',D+'atomic_impl.hpp','src/lock_pool.cpp',D+'bitwise_cast.hpp'],[('signed arithmetic done in unsigned storage',D+'atomic_impl.hpp')],['absence of undefined results'])
p('C24','All back ends implement one specification',
 'Every alternative implementation that the library can select for the architecture - compiler intrinsics, legacy intrinsics, hand-written assembly, compare-exchange based and lock based - satisfies the same value, atomicity and ordering contracts for every width it claims to support. Selecting another one never changes the observable behaviour of a program.',
 ['configurations','inputs','schedules'],'every backend and width selectable on x86-64, every operand and order, all interleavings',
 'A test run exercises only the one implementation its compiler selects.',
 [D+'core_arch_ops_gcc_x86.hpp',D+'core_ops_gcc_sync.hpp',D+'core_ops_gcc_atomic.hpp',D+'core_ops_cas_based.hpp',D+'cas_based_exchange.hpp',D+'extending_cas_based_arithmetic.hpp',D+'core_operations_emulated.hpp',D+'extra_ops_generic.hpp',D+'fence_ops_gcc_sync.hpp'],
 [('backends',D+'platform.hpp')],['return values','object bytes','order of accesses'])
p('C25','Progress is fair and every waiter eventually returns',
 'Provided the operating system schedules all threads fairly, every operation eventually completes, and every wait whose value stays changed eventually returns after a notification. Lock-free operations make system-wide progress.',
 ['schedules'],'all fair infinite schedules',
 'Liveness cannot be observed in finite test runs.',
 ['src/lock_pool.cpp',D+'extra_ops_generic.hpp',D+'wait_ops_generic.hpp'],[('CAS loops and blocking waits','src/lock_pool.cpp')],['completion'])
here=os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here,'..','properties.jsonl'),'w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
