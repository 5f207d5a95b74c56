#!/usr/bin/env python3
# writes /verif/properties.jsonl (kept as a generator so the lines stay consistent)
import json, os
T5='md5,sha1,sha224,sha256,sha512'
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None):
    a={'files':files,'mechanism':[{'name':n,'where':w} for n,w in mech],'observe_at':observe,'hook_needed':None}
    if state: a['state']=[{'name':x,'meaning':'context state','where':files[0]} for x in state]
    P.append({'id':id,'title':title,'statement':statement,'quantifier':{'over':over,'text':text},'why_tests_cant':why,'anchors':a})
CTX=['libhmac/libhmac_%s_context.c'%t for t in T5.split(',')]
API=['libhmac/libhmac_%s.c'%t for t in T5.split(',')]
TESTS='The only stable test checks the version string; even the full upstream tests compare a few known vectors.'
p('C01','HMAC results follow RFC 2104 for every key and message',
 'For each of MD5, SHA-1, SHA-224, SHA-256 and SHA-512, a keyed calculation that succeeds returns H((K0 xor opad) || H((K0 xor ipad) || message)), where K0 is the key padded with zeros to the hash block size, or the hash of the key so padded when the key is longer than one block. This holds for every key length (including empty, exactly one block and one byte more) and every message length (including empty).',
 ['inputs'],'All key contents and lengths, all message contents and lengths, all five algorithms.',TESTS+' Key lengths around the block boundary and arbitrary contents are unbounded.',
 API,[('key normalisation, pads, inner and outer hash','libhmac/libhmac_*.c: *_calculate_hmac')],['HMAC bytes returned by the five calculate_hmac functions'])
p('C02','Block compression equals the published standard for every state and block',
 'In the built-in implementation (both the unrolled and the rolled variant), processing one full block replaces the chaining state by exactly the value the standard (RFC 1321, FIPS 180-4) prescribes for that state and block, for every state and every block. A run over several blocks consumes them front to back, each exactly once, leaves the incomplete tail untouched, and reports the number of bytes it consumed.',
 ['inputs','configurations'],'All 2^n chaining states, all blocks, all input lengths, both loop configurations.',TESTS+' The rolled configuration is never compiled by the build.',
 CTX+['libhmac/libhmac_byte_stream.h','common/byte_stream.h'],[('block transform, round constants and rotation tables','libhmac/libhmac_*_context.c: *_context_transform')],['digest values'],[ 'hash_values'])
p('C03','Initial value, padding, length field and output format follow the standard',
 'For every total message length, a built-in context starts from the initial chaining value of its algorithm, and finalising it processes the remaining bytes followed by 0x80, the fewest zero bytes and the 64- or 128-bit message length in bits in the byte order of the standard, and then emits the chaining words in that byte order, truncated to the digest size. This holds in particular at the lengths where the padding just fits or spills into a second block, and for messages longer than 4 GiB.',
 ['inputs','configurations'],'All message lengths below 2^61 bytes, all chaining states, all five algorithms, rolled and unrolled.',TESTS+' Boundary lengths and multi-gigabyte inputs are out of reach of tests.',
 CTX,[('initial hash values','*_context_initialize'),('padding and length','*_context_finalize')],['digest values'],['hash_count','block_offset','block'])
p('C04','A digest does not depend on how the message is split over updates',
 'Feeding a message to a built-in context in any number of pieces, of any sizes including empty ones, leaves the context equivalent to feeding it in one piece: every byte is processed exactly once and in order, whole blocks are compressed as soon as available, the incomplete tail is retained, and the running byte count equals the number of bytes compressed. An empty piece changes nothing.',
 ['histories','inputs'],'All sequences of update calls and all piece sizes up to the maximum.',TESTS+' They never call update more than a couple of times; the number of splittings is unbounded.',
 CTX,[('partial block buffering','*_context_update')],['digest values'],['block_offset','block','hash_count'])
p('C05','One-shot and deprecated entry points equal the incremental interface',
 'The one-shot digest of a buffer equals creating a context of the same algorithm, feeding the whole buffer once, finalising into the caller\'s digest buffer and freeing the context; and each deprecated entry point does exactly what the corresponding current entry point of the same algorithm does with the same arguments, returning its result. No entry point of one algorithm uses another algorithm.',
 ['inputs','programs'],'All inputs of the five one-shot functions and the twenty deprecated wrappers.','The build does not even compile these files; tests sample a few vectors.',
 API,[('one-shot calculation','*_calculate'),('deprecated wrappers','*_initialize, *_free, *_update, *_finalize')],['return value and digest'])
p('C06','Memory accesses of the library stay inside the context and caller buffers',
 'Given a valid context and buffers of the stated sizes, no library call reads or writes outside the context, its own work memory, the first size bytes of an input buffer or the first digest-size bytes of an output buffer, whatever the sizes and the previous history of the context are.',
 ['inputs','histories','fault_sequences'],'All sizes, all reachable context states (including after a failed call), all failures of memory primitives.','Tests without sanitizers on a few vectors do not observe out-of-bounds accesses at boundary fill levels.',
 CTX+API,[('block buffer indexing','*_context_update, *_context_finalize, *_context_transform'),('pad buffers','*_calculate_hmac')],['memory outside the objects'],['block_offset'])
p('C07','Invalid arguments are rejected before anything is changed',
 'Every public context and calculation function called with a missing context, a missing buffer, key or digest pointer, a size above the signed maximum, a digest buffer smaller than the digest, or a context reference that is already set (on creation) fails with -1, records an error, changes nothing through the arguments (other than the error) and allocates nothing that outlives the call. Valid arguments, including zero-length messages and keys and the exact digest size, are not rejected.',
 ['inputs'],'All argument combinations of the public functions of the five algorithms.','The invalid-argument unit tests are not built here and cover one value per argument.',
 CTX+API,[('argument guards','all public functions')],['return value, error object, memory behind the arguments'])
p('C08','A failure inside a library call is always reported, never swallowed',
 'If any allocation, memory primitive, block transform, crypto backend call or nested library call fails during a public library call, that call returns -1 with the error recorded; conversely it returns 1 only if every step succeeded, and then it records no error.',
 ['fault_sequences'],'Every single failure point in every library function, in every backend configuration.','Tests cannot inject failures at every call site of every configuration.',
 CTX+API,[('error propagation','all library functions')],['return value and error object'])
p('C09','Library calls neither leak, double free nor use freed memory on any path',
 'On every path of every library function, including every failure path, memory and contexts acquired by the call are released exactly once or handed to the caller through a successful return; the caller\'s context reference is set only on success, is cleared by freeing, and freeing an empty reference is a successful no-op. Failure of a call on an existing context leaves that context freeable.',
 ['fault_sequences','inputs'],'All paths including every failure point.','Allocation failures at each site are not exercised by tests.',
 CTX+API,[('ownership','initialize, free, calculate, calculate_hmac')],['heap balance'])
p('C10','Key- and message-derived working data is wiped before its memory is given up',
 'On every path of a library call, including every failure path after the data was produced, work arrays in the stack frame and heap blocks that held the key, padded keys, message words, digest intermediates or chaining state are overwritten before the call returns or the block is freed; a finalised context holds no trace of the message, and freeing a context clears it first. The property is about the stores the source performs (results handed to the caller excepted), not about what an optimiser makes of them.',
 ['inputs','fault_sequences'],'All paths of all library functions of the built-in implementation and the HMAC functions.','Tests look at results, not at what is left in dead memory.',
 CTX+API,[('clearing of pads, key data, hash values and message schedule','*_calculate_hmac, *_context_transform, *_context_finalize, *_context_free')],['memory contents at frees and returns'])
p('C11','The library keeps no shared mutable state',
 'No library function writes to storage that outlives the call other than through its arguments: there is no writable global or function-level static that any call modifies, and no use of non-reentrant C library services, so calls on different contexts never influence each other, in any thread interleaving.',
 ['schedules','histories'],'All interleavings of calls on distinct contexts and all call histories.','Tests are single-threaded; a shared table or cache corrupts only under interleaving or a second use.',
 CTX+API+['libhmac/libhmac_support.c','libhmac/libhmac_error.c'],[('constant tables and locals only','whole library')],['digests of interleaved contexts'])
p('C12','Inputs are only read, bytewise, independent of byte order and alignment',
 'No library call modifies the key, the message or the bytes of an input buffer, retains a pointer to them after returning, or accesses them in units whose meaning depends on the byte order or alignment of the host: the digest is the same function of the bytes on little- and big-endian, 32- and 64-bit targets.',
 ['inputs','configurations'],'All inputs, both byte orders, 32- and 64-bit targets.','The tests run on one little-endian 64-bit host that tolerates unaligned access.',
 CTX+API+['libhmac/libhmac_byte_stream.h','common/byte_stream.h'],[('byte-wise loads and stores','byte stream macros, *_transform, *_finalize')],['digest on other targets, input buffers after the call'])
p('C13','A successful finalise or calculation writes exactly the digest bytes',
 'When finalising or calculating succeeds, exactly the first digest-size bytes of the output buffer (16, 20, 28, 32 or 64) have been written, all of them, and no byte beyond, whatever larger buffer size the caller stated.',
 ['inputs'],'All stated buffer sizes from the digest size to the signed maximum, all algorithms, all code paths to success.','Tests pass exactly-sized buffers only.',
 CTX+API,[('digest serialisation','*_finalize, *_calculate, *_calculate_hmac')],['output buffer'])
p('C14','Public headers, limits and implementation agree',
 'Every function the public header declares is defined by the library with the same signature, the digest-size constants are the same in the public, internal and local-build headers and equal 16, 20, 28, 32 and 64, the error domains and codes the library reports have the same numeric values as those published, the library version reported equals the one the package declares, and the public error functions hand their arguments to the error library unchanged.',
 ['programs','configurations'],'All declarations, all configurations of the headers.','The tests use one generated configuration and compare no header against another.',
 ['include/libhmac.h.in','include/libhmac/definitions.h.in','include/libhmac/error.h','libhmac/libhmac_definitions.h.in','libhmac/libhmac_support.c','libhmac/libhmac_error.c'],[('prototypes and constants','headers')],['compile-time interface'])
p('C15','Every crypto backend configuration implements the same contract',
 'When the library is built against the low-level OpenSSL digest functions or against the OpenSSL EVP interface (old and new variants), each context still computes its own algorithm over exactly the bytes passed to it: creation initialises exactly that digest, an update forwards exactly the caller\'s bytes, finalising writes that digest to the caller\'s buffer, freeing releases what creation acquired, and backend failures are reported.',
 ['configurations','inputs','fault_sequences'],'All backend selections of all five algorithms.','The build has one configuration; the other preprocessor branches are not even compiled.',
 CTX+['libhmac/libhmac_%s_context.h'%t for t in T5.split(',')],[('backend selection branches','*_context_initialize/_free/_update/_finalize')],['return values and digests per configuration'])
p('C16','Control flow and memory addresses do not depend on secret bytes',
 'In the built-in implementation no branch, loop bound or memory address in any library function depends on the contents of the key, the message, the chaining state or the digest; only lengths, pointers and call results may influence them.',
 ['inputs'],'All key and message contents.','Timing and cache behaviour are invisible to result-comparing tests.',
 CTX+API,[('straight-line round functions','*_transform, *_update, *_finalize, *_calculate_hmac')],['executed path and address trace at source level'])
p('C17','Every library call terminates after work linear in its input size',
 'Every loop in the library has a bound fixed by its code or makes strict progress through the input on each iteration, and there is no recursion, so every call terminates for every input size up to the maximum accepted.',
 ['inputs'],'All input sizes.','Non-termination at special sizes cannot be excluded by sampling.',
 CTX+API,[('block loop','*_transform'),('pad loops','*_calculate_hmac')],['call returns'])
p('C18','Byte-order helpers convert exactly and losslessly',
 'The shared helpers that read or write 16- to 64-bit integers as little- or big-endian bytes, rotate words and load whole blocks of words produce exactly the value or bytes the name says for all inputs, and touch exactly that many bytes.',
 ['inputs'],'All values of all helper macros.','The helpers have no unit test and several are only used in other configurations.',
 ['common/byte_stream.h','libhmac/libhmac_byte_stream.h'],[('load, store and rotate macros','byte stream headers')],['converted values'])
p('C19','The sum tool ties every requested digest to its own algorithm, buffer and label',
 'For each digest type the command line accepts, exactly that algorithm\'s context is created, fed, finalised and released, its digest is turned into hexadecimal at full length in a buffer large enough for it, and it is printed under its own label; every documented spelling of a type selects that type and no other, and types not requested are neither computed nor printed (MD5 is always on by default).',
 ['inputs','histories'],'All subsets and spellings of digest types.','The tools cannot be built here and have only end-to-end script tests for a few options.',
 ['hmactools/sum_handle.c','hmactools/sum_handle.h'],[('per-digest slots','sum_handle_*')],['tool output'])
p('C20','The sum tool hashes every input byte exactly once and reports incomplete reads',
 'Processing an input passes to the digests exactly the bytes read from the file, in order, each exactly once and in the amounts actually read, until the size of the input is reached; a read error, a premature end of data, a hash failure or a memory failure makes processing fail, and digests are finalised exactly once, after the last byte.',
 ['inputs','fault_sequences'],'All file sizes, buffer sizes, short reads and failures.','End-to-end tests use a few regular files and see neither short reads nor failures.',
 ['hmactools/sum_handle.c'],[('read loop','sum_handle_process_input, sum_handle_read_buffer, sum_handle_update_integrity_hash')],['digest printed for the file'])
p('C21','The sum tool prints no digest and exits with failure after an error or abort',
 'If option handling, opening, sizing, reading or hashing the input fails, or an interrupt arrives while the input is opened and processed, the program prints no digest and exits with a failure status; a failure to print the digests, to close the input or to release the resources also gives a failure status; it exits with success exactly when the input was fully processed, the digests of all selected types were printed and the resources were released, or when only help or version information was requested. After an interrupt at most the read in progress and one more are carried out, and the interrupt handler never uses a handle that was released.',
 ['fault_sequences','schedules'],'Every failing step and every point at which the interrupt arrives.','Failures and signals at each point are not injectable by the existing tests.',
 ['hmactools/hmacsum.c','hmactools/sum_handle.c'],[('main flow and signal handler','main, hmacsum_signal_handler')],['exit status and output'])
p('C22','Hexadecimal digest conversion is exact and bounded',
 'Converting a digest of any size to text writes two lower-case hexadecimal digits per byte, high half first, in order, followed by a terminator, never writes past the stated string size, and refuses (writing nothing) when the string cannot hold it.',
 ['inputs'],'All digest sizes and contents and string sizes.','Not covered by a unit test here.',
 ['hmactools/digest_hash.c'],[('conversion loop and size check','digest_hash_copy_to_string')],['string buffer'])
p('C23','Size strings are parsed to the stated number of bytes or rejected',
 'A process buffer size given as a decimal integer with an optional unit suffix (k, m, g, t, p or e in either case, alone or followed by iB for powers of 1024, or by B for powers of 1000) is converted to exactly that many bytes when the result fits in 64 bits, as is a number with one or two decimals of a unit that is a power of 1000, an unknown suffix is rejected with an error, the value takes effect only if it is not larger than the largest signed size, and no character beyond the terminator of the string is read.',
 ['inputs'],'All strings.','The tools cannot be built here; suffix and boundary combinations are not sampled.',
 ['hmactools/byte_size_string.c','hmactools/sum_handle.c'],[('parser','byte_size_string_convert'),('range check','sum_handle_set_process_buffer_size')],['buffer size in effect'])
p('C24','The tools release what they acquire and report every failed step',
 'On every path of the sum handle and conversion functions, including every failure path, resources acquired are released exactly once or remain owned by the handle that frees them, functions return their documented success value exactly when all steps succeeded, and every failed step yields the failure value with the error recorded; missing arguments are rejected first.',
 ['fault_sequences','inputs'],'All failure points of the tool functions.','Failure injection into the tool does not exist.',
 ['hmactools/sum_handle.c','hmactools/digest_hash.c','hmactools/byte_size_string.c','hmactools/hmactools_signal.c','hmactools/hmactools_output.c'],[('ownership and error paths','sum_handle_*, hmactools_*')],['return values, heap balance'])
p('C25','Every Python function and type computes the algorithm its name says',
 'Each function of the Python module and each context type is bound to the implementation of the algorithm in its name, passes exactly the bytes of its arguments (key and data not confused, with their own lengths) to the library, and returns a bytes object of exactly the digest of that algorithm; every implemented function and type is registered once, with calling conventions that match its parameters.',
 ['inputs','programs'],'All module functions and types, all arguments.','The Python module is not built here.',
 ['pyhmac/pyhmac.c']+['pyhmac/pyhmac_%s%s.c'%(t,s) for t in T5.split(',') for s in ('','_context')],[('method tables and wrappers','pyhmac_*')],['Python results'])
p('C26','Python calls keep references, native contexts and the interpreter lock balanced',
 'On every path through every Python entry point, references created or acquired by the call are released or returned exactly once and borrowed ones are not released, native objects and error objects are freed, the interpreter lock is held whenever the Python API is used and is re-acquired after being released, and destroying or re-initialising an object releases its native context exactly once.',
 ['fault_sequences','histories'],'All paths and all failures of API calls.','Reference leaks and lock misuse are silent in functional tests; the module is not built here.',
 ['pyhmac/pyhmac.c','pyhmac/pyhmac_error.c']+['pyhmac/pyhmac_%s%s.c'%(t,s) for t in T5.split(',') for s in ('','_context')],[('reference and lock pairing','pyhmac_*')],['reference counts'])
p('C27','Python calls raise an exception exactly when they fail',
 'Every Python entry point that reports failure has an exception set at that moment, one that reports success has none pending, non-bytes arguments are refused, a failing library call is always turned into an exception rather than ignored, and no argument or failing call makes the module touch memory it may not.',
 ['inputs','fault_sequences'],'All paths of all Python entry points.','The module is not built here; failure paths are not injectable.',
 ['pyhmac/pyhmac.c','pyhmac/pyhmac_error.c']+['pyhmac/pyhmac_%s%s.c'%(t,s) for t in T5.split(',') for s in ('','_context')],[('error translation','pyhmac_*')],['raised exceptions'])
p('C28','The digests resist forgery and collisions as their algorithms promise',
 'No feasible computation finds two messages with the same SHA-2 digest, or a valid HMAC without the key.',
 ['inputs'],'All adversaries of bounded computing power.','A computational assumption, not a property of one run.',
 CTX,[('algorithms','whole library')],['digests'])
p('C29','Calls run in time independent of secrets on the actual hardware',
 'The measured execution time and cache footprint of a keyed calculation depend only on the lengths of key and message on every supported processor and compiler.',
 ['inputs','configurations'],'All secrets, compilers and processors.','Needs measurement on hardware.',
 CTX+API,[('compiled code','whole library')],['timing'])
p('C30','Wiping of secrets is not removed by an optimising compiler',
 'The overwriting of work arrays before a function returns, and of contexts and heap blocks before they are released, is written so that a conforming compiler must carry it out at every optimisation level: it is not a plain memset or store to memory that is never read again. (Copies in registers and spill slots are not covered.)',
 ['configurations'],'All conforming compilers and optimisation levels, all paths.','Tests run one build and do not look at memory that was given up.',
 CTX+API+['common/memory.h'],[('memory clearing','memory_set')],['process memory'])
p('C31','Threads sharing a Python object or function get sequential results',
 'Two threads calling methods of the same Python context object (update, finalize, initialisation again), or any functions of the Python module, at the same time obtain results equal to some sequential order of their calls: while the interpreter lock is released or code of an argument runs, no call touches an object, a library context or static storage another thread may be using, and none continues with a library context that was replaced meanwhile.',
 ['schedules'],'All interleavings of calls from several threads.','Tests are single-threaded and do not build the module.',
 ['pyhmac/pyhmac_%s%s.c'%(t,s) for t in T5.split(',') for s in ('','_context')],[('interpreter lock around library calls','pyhmac_*_context_update, pyhmac_*_context_finalize, pyhmac_*_context_init')],['digests under concurrency'])
p('C32','The command line of the sum tool means what its usage text says',
 'Whatever the order and repetition of options: -d selects the digest types and -p the process buffer size of the last such option, -v and nothing else turns on verbose output, which goes to the standard error, the input opened is the first argument after the options, -h prints a usage text on the standard output that names exactly the options accepted, -V prints the version the package declares and the copyright, and an unknown option or a missing source prints the usage text and fails without processing anything. The option parser the tool brings for platforms without getopt returns, for every argument vector, the options, their arguments and the first operand as POSIX getopt does (a missing argument may be reported as ? or :), and reads nothing beyond the arguments.',
 ['histories','inputs'],'All sequences of options and all argument vectors.','The tests never run the tool with options, and never build the option parser.',
 ['hmactools/hmacsum.c','hmactools/hmactools_getopt.c','hmactools/hmactools_output.c'],[('option handling','main, usage_fprint'),('option parser','hmactools_getopt')],['which input and digests are processed'])
p('C33','Byte sizes are shown as whole units of the largest fitting unit',
 'For every 64-bit size, in units of 1000 or 1024, and every string of at least nine characters, the size formatter prints the whole number of units of the largest power of the unit the size reaches, followed by one decimal exactly when that number is below ten and a power is used (the exact tenth, rounded down, for units of 1000; at most one tenth off for units of 1024), by the decimal point of the locale and by the suffix of that power ( B,  KB..EB,  KiB..EiB), all within the string. A missing or shorter string is refused without printing, and a failing step is reported as -1.',
 ['inputs'],'All sizes and both units, all string lengths.','The tests do not build the formatter.',
 ['hmactools/byte_size_string.c','hmactools/byte_size_string.h'],[('size formatter','byte_size_string_create')],['sizes shown to the user'])
p('C34','Recorded errors and exceptions tell what failed and where',
 'Every error the library, the sum tool and the Python module record has a domain that exists and a code of that domain, and its message begins with the name of the function that records it or of one that calls that function. The first error recorded on a failing call says what happened: the memory domain with insufficient, copy failed or set failed for a failed allocation, copy or overwrite; the argument domain for a refused argument (invalid value when it is missing, exceeds maximum or out of bounds when it is too large, too small or out of bounds when it is too small) and runtime, value already set, for a reference that already holds an object; the input/output domain when opening, reading or closing the input fails or it ends early; the runtime domain for a nested call that failed. In Python, an argument of a Python function that is not a bytes object raises TypeError or ValueError, and a failure of the library raises OSError (IOError) or MemoryError with the text of the library error in its message.',
 ['inputs','crash_points'],'Every failing step of every function, and every argument refused.','The tests only look at whether an error was recorded, in calls with missing arguments.',
 ['libhmac/libhmac_%s%s.c'%(t,s) for t in T5.split(',') for s in ('','_context')]+['hmactools/sum_handle.c','pyhmac/pyhmac_error.c'],[('recording of errors','libcerror_error_set in every function'),('translation into exceptions','pyhmac_error_raise')],['diagnosis of failures'])
with open(os.path.join(os.path.dirname(__file__),'..','properties.jsonl'),'w') as f:
    for x in P:
        assert len(x['title'])<=80,(x['id'],len(x['title']))
        f.write(json.dumps(x)+'\n')
print(len(P))
