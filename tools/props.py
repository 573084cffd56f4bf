import json
P=[]
def p(id,title,st,over,qt,why,files,mech,observe=None):
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=qt),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe or [],hook_needed=None)))
M='src/libspu/mpc/'; K='src/libspu/kernel/'; C='src/libspu/core/'
p('C01','Secure ring operations open to the exact ring result',
 'For every protocol, ring width and mix of public, private and secret operands, each ring operation (add, subtract, multiply, square, matrix multiply, bitwise logic, shifts, bit reversal, comparison, equality, selection, conversion between visibilities) produces a value that opens to the result of the same operation on the plain operands modulo 2^k. A truncation of a value with enough head room opens to the arithmetic shift, off by at most one unit in the last place. The result does not depend on which random masks were drawn.',
 ['programs','inputs','configurations'],'all straight-line programs of ring operations, all element values including the ring boundaries, SEMI2K (2 and 3 parties), ABY3, SECURENN, SWIFT and the plaintext reference, rings of 32, 64 and 128 bits, all visibility combinations',
 'The unit tests of each protocol draw a few uniform matrices per operation and never compose operations or aim at boundary values; a wrong carry, a lost high bit or a wrong operand pairing shows only on particular values or after particular chains.',
 [M+'semi2k',M+'aby3',M+'securenn',M+'experimental/swift',M+'ref2k',M+'api.cc',M+'ab_api.cc',M+'common/pv2k.cc',K+'hal/ring.cc',K+'hal/prot_wrapper.cc',M+'utils/ring_ops.cc'],
 [('API dispatch and tiling',M+'api.cc'),('protocol kernels',M+'{semi2k,aby3,securenn}/{arithmetic,boolean,conversion}.cc'),('visibility dispatch',K+'hal/ring.cc')],['opened values and share bytes of every party after each operation'])
p('C02','The shares held by the parties always form a valid sharing',
 'After every operation the pieces held by the parties are a well-formed sharing of one value: additive and boolean pieces combine to it, the two copies of each replicated piece are identical at both holders, public values are identical everywhere, private data is held by its owner only, and all parties agree on type, shape and element type. Boolean sharings never carry set bits above the width they declare.',
 ['programs','inputs','configurations'],'all straight-line programs of ring operations over all protocols, widths and visibilities',
 'Tests open results with one fixed party and so cannot see two holders disagree, nor garbage above the declared width that a later operation would expose.',
 [M+'semi2k/type.h',M+'aby3/type.h',M+'securenn/type.h',M+'experimental/swift/type.h',M+'aby3',M+'semi2k',M+'securenn'],
 [('share types',M+'*/type.h'),('share layout of kernels',M+'*/{arithmetic,boolean,conversion}.cc')],['share bytes of every party'])
p('C03','No single party learns anything about a secret from what it receives',
 'For every secret computation, what any one party holds and receives (its input pieces, its correlated randomness and every incoming message) has the same joint distribution whatever the secret values are, as long as the opened results are the same. In particular no message, and no sum, difference or exclusive-or of two things the party holds, exposes a secret.',
 ['inputs','programs','configurations'],'all secret values; every single corrupted party; SEMI2K, ABY3 and SECURENN operations on secrets',
 'Secrecy is a statement about distributions over all masks; a test that opens the right result passes even if every mask is zero or reused.',
 [M+'semi2k',M+'aby3',M+'securenn',M+'common/prg_state.cc'],
 [('masking of opened differences',M+'semi2k/arithmetic.cc'),('zero sharings',M+'common/prg_state.cc'),('resharing',M+'aby3/arithmetic.cc')],['messages delivered to each party'])
p('C04','Random streams are synchronised, never reused, and forked apart',
 'Parties that share a random stream draw identical values from it at every point of every program, and parties that do not share it draw unrelated ones; zero sharings always sum (or xor) to zero. No part of a stream is used twice, and a forked context draws from streams disjoint from its parent and its siblings at every party.',
 ['histories','programs','schedules'],'all histories of draws of any sizes and kinds and of forks, in any number of parties',
 'Tests compare one or two draws; reuse or drift appears only after particular sequences of sizes, kinds and forks.',
 [M+'common/prg_state.cc',M+'common/prg_state.h',M+'common/prg_tensor.h'],
 [('stream counters',M+'common/prg_state.cc'),('seed exchange on construction and fork',M+'common/prg_state.cc')],['drawn values; stream position of every draw'])
p('C05','Protocol runs are deadlock-free, in lockstep, and oblivious to the data',
 'Every secure operation terminates at all parties whatever the order in which parties run and messages are delivered between channels, and every message sent is received exactly once. The number, size, sender and receiver of all messages depend only on the operation, shapes, widths and visibilities and never on secret values. The result does not depend on the schedule.',
 ['schedules','programs','inputs'],'all interleavings of the parties and message delays, all programs, all secret values',
 'Tests run one schedule and do not compare the traffic of different inputs; an unmatched message only breaks a later operation.',
 [M+'common/communicator.cc',M+'semi2k',M+'aby3',M+'securenn',M+'experimental/swift'],
 [('message exchange',M+'common/communicator.cc')],['message log of the in-process links'])
p('C06','Collective communication delivers the specified combination to every party',
 'All-reduce, reduce, rotate, broadcast, gather, send and receive return to each party exactly the combination of the inputs that their contract names, for any number of parties, element type, shape and operator, and leave the inputs unchanged. The reported communication volume equals the contract.',
 ['inputs','configurations','histories'],'all sequences of collectives over 2 to 5 parties, all shapes (also strided and empty), all reduce operators and field types',
 'Tests fix three parties and one contiguous shape.',
 [M+'common/communicator.cc',M+'common/communicator.h'],[('collectives',M+'common/communicator.cc')],['returned tensors; statistics'])
p('C07','Tensor views read and write exactly the elements they denote',
 'Slicing, transposing, reversing, reshaping, broadcasting, padding, concatenating, gathering, scattering and updating a tensor through any chain of views yields the elements the operations denote on the logical tensor. Writing through a view changes the denoted elements and no other; copying operations never alias and view operations never copy the wrong element.',
 ['programs','inputs'],'all chains of view operations over all shapes (empty and zero-dimensional included), strides (negative and zero included) and element sizes',
 'Each test builds one tensor and applies one operation; the errors live in chains (a reshape of a reversed slice of a broadcast).',
 [C+'ndarray_ref.cc',C+'ndarray_ref.h',C+'shape.h',C+'shape.cc'],[('strided indexing',C+'ndarray_ref.h'),('reshape without copy',C+'ndarray_ref.cc'),('index arithmetic',C+'shape.h')],['elements read through the view'])
p('C08','Values and configurations survive serialization exactly',
 'A value cut into chunks of any size and joined again is the same value: same element type, visibility, storage type, shape and bytes, whatever the layout of the original in memory. Joining rejects incomplete, overlapping, surplus or mismatched chunks instead of yielding a wrong value. A type or configuration written and read back is equal to the original.',
 ['inputs','histories','fault_sequences'],'all values, layouts, chunk sizes and all ways of losing, duplicating, reordering or altering chunks',
 'Tests cover one chunk size and one reordering.',
 ['src/libspu/core/value.cc','src/libspu/core/type.cc','src/libspu/core/type.h','src/libspu/spu.cc','src/libspu/spu.h','src/libspu/core/config.cc'],
 [('chunking and joining',C+'value.cc'),('type to and from text',C+'type.cc'),('configuration parsing','src/libspu/spu.cc')],['round-tripped values'])
p('C09','Plain values survive encoding into the ring',
 'Encoding then decoding an integer or boolean that fits its element type returns it exactly, and a floating-point value returns within one unit of the fixed-point precision; values outside the range saturate and special values map to the documented ones. Encoding is monotone and decoding is its inverse on every ring element in range.',
 ['inputs','configurations'],'all plain element types, ring widths, numbers of fraction bits, and all values including subnormal, infinite and not-a-number, any stride',
 'Tests use a handful of round numbers per type.',
 [C+'encoding.cc',C+'encoding.h',C+'half.h',C+'type_util.h'],[('encode and decode',C+'encoding.cc'),('half precision',C+'half.h')],['encoded ring elements and decoded values'])
p('C10','Client input and output preserve data and hide it',
 'Sharing any plain array and combining the shares returns the encoded data exactly, for every protocol, visibility, element type, shape and layout, and each single share of a secret is distributed independently of the data. Values put into and taken out of the co-located store come back under the same name at all parties with the visibility and owner they were given.',
 ['inputs','histories','configurations'],'all arrays, all protocols and numbers of parties, all histories of set, delete, synchronise and get',
 'Tests round-trip a few small arrays and never look at individual shares.',
 ['src/libspu/device/io.cc','src/libspu/device/symbol_table.cc',M+'*/io.cc'],[('share construction',M+'*/io.cc'),('co-located exchange','src/libspu/device/io.cc')],['shares; round-tripped arrays'])
p('C11','Correlated randomness is correct whatever its source, size and history',
 'Every multiplication, matrix, bitwise, truncation, random-bit, permutation and equality tuple handed to the parties satisfies its defining relation, for trusted first party and remote dealer alike, for any request size including those split into blocks or streamed in arbitrary pieces, and after any history of replays from the cache. A cached operand is reused only with the identical tensor it was made for.',
 ['histories','inputs','schedules'],'all sequences of requests, sizes, replay and cache decisions, and all ways a streamed reply is cut into pieces',
 'Tests request each kind once with a fixed small size and an unfragmented reply.',
 [M+'semi2k/beaver/beaver_impl',M+'semi2k/beaver/beaver_cache.cc'],[('dealer adjustment',M+'semi2k/beaver/beaver_impl/trusted_party/trusted_party.cc'),('streamed replies',M+'semi2k/beaver/beaver_impl/beaver_ttp.cc'),('remote dealer',M+'semi2k/beaver/beaver_impl/ttp_server/beaver_server.cc')],['tuples of all parties'])
p('C12','Tampered openings are detected in the malicious-security protocols',
 'If any party changes its share of an authenticated value or a message of a verified exchange before an opening, honest parties abort instead of returning a wrong value; if nobody deviates, verification always succeeds.',
 ['fault_sequences','inputs'],'every single tampered word at every message of an opening or check, all values',
 'Tests only run honest parties, so a check that never fires passes them all.',
 [M+'spdz2k',M+'experimental/swift'],[('MAC check',M+'spdz2k/beaver/beaver_tfp.cc'),('joint message passing with hashes',M+'experimental/swift/arithmetic.cc')],['abort or result at each party'])
p('C13','Sorting, shuffling and permuting move whole rows along a bijection',
 'Applying a permutation then its inverse restores the input; a shuffle yields a permutation of the input rows; sorting returns the rows in the requested order, stably where promised, and all payload columns travel with their key. Top-k and order statistics return the elements full sorting would, and a routing network configured for a permutation realises it for every size.',
 ['inputs','programs','configurations'],'all permutations and all inputs with ties, all sizes (powers of two or not, 0 and 1 included), any number of key and payload columns, all visibilities and protocols',
 'Tests use a few fixed inputs and sizes.',
 [K+'hal/permute.cc',K+'hlo/sort.cc',K+'hlo/permute.cc',K+'hlo/shuffle.cc',K+'hlo/rank.cc',M+'utils/permute.cc',M+'utils/waksman_net.cc',M+'*/permute.cc'],
 [('radix, quick and network sorts',K+'hal/permute.cc'),('routing network',M+'utils/waksman_net.cc'),('secure permutation kernels',M+'semi2k/permute.cc')],['opened rows'])
p('C14','Local numeric kernels are exact for every shape, stride and width',
 'Matrix multiplication and the element-wise ring, field and bit kernels that every protocol is built from return the exact result modulo the ring (or field) for every shape, leading dimension, stride and element width, and touch no element outside their output. Splitting work into tiles changes no result.',
 ['inputs','configurations'],'all dimensions (0 and 1 included), row strides, overlapping reads, all values and all widths of 8 to 128 bits',
 'The two stable tests multiply one tiny matrix; other kernels are tested on one contiguous shape.',
 [M+'utils/linalg.h',M+'utils/linalg.cc',M+'utils/ring_ops.cc',M+'utils/gfmp_ops.cc',M+'utils/gfmp.h',M+'utils/tiling_util.h',C+'vectorize.h'],
 [('matrix product',M+'utils/linalg.h'),('ring kernels',M+'utils/ring_ops.cc'),('Mersenne field',M+'utils/gfmp.h'),('tiling',M+'utils/tiling_util.h')],['output buffers with guard elements'])
p('C15','Cost expressions evaluate to the value of their formula',
 'A symbolic cost expression evaluates, for every assignment of its variables, to the value of the formula it was built from, prints as that formula (read with the usual precedence and left association the text has the same value), and refuses to evaluate when a variable it mentions is unbound.',
 ['inputs','programs'],'all expression trees and all assignments','Tests evaluate three expressions.',
 [C+'cexpr.h',C+'cexpr.cc'],[('expression tree',C+'cexpr.h')],['value and text'])
p('C16','Contexts, kernels and states are looked up and forked faithfully',
 'A registered kernel or state is found under exactly its name and type at the object it was registered with and its forks; registering a name twice or looking up a missing one is reported, never silently answered. Forking gives an object whose states are independent of the parent, identical in behaviour and uniquely identified.',
 ['histories'],'all histories of registration, lookup, prefer, fork and use','Tests perform one registration and one lookup.',
 [C+'object.h',C+'object.cc',C+'context.h',C+'context.cc'],[('kernel and state tables',C+'object.h')],['lookup results'])
p('C17','Parallel loops visit every index exactly once',
 'A parallel loop or reduction runs its body for every index of its range exactly once, for every range, grain size and number of threads, also when nested or empty, reports exceptions of the body, and yields the same results as the sequential loop. Secure operations give the same result for every degree of parallelism.',
 ['schedules','inputs'],'all ranges, grain sizes, thread counts and interleavings','Tests run with one thread count and sizes too small to split.',
 [C+'parallel_utils.h',C+'parallel_utils.cc',C+'config.cc',M+'utils/tiling_util.h'],[('grain size',C+'parallel_utils.h')],['visit counts and results'])
p('C18','Tensor operators follow the array-language semantics on secrets',
 'Every tensor operator (broadcast, concatenate, slice, dynamic slice and update, pad, reverse, transpose, gather, scatter, reduce, window reduce, arg-reduce, select-and-scatter, convolution, dot-general, iota, one-hot indexing, clamp and select) returns on any mix of public and secret operands the tensor that the array language defines for the plain operands.',
 ['inputs','programs','configurations'],'all shapes, strides, paddings, dilations, dimension numbers, start indices (out of range included) and visibilities',
 'Tests cover one shape per operator.',
 [K+'hlo',K+'hal/shape_ops.cc',K+'hal/utils.h'],[('operators',K+'hlo/*.cc'),('secret indexing',K+'hlo/indexing.cc')],['opened tensors'])
p('C19','Control flow executes exactly the branch or iterations its predicate selects',
 'Conditional, case and while constructs return the result of exactly the branches and iterations that the plain program would run, for public predicates by executing only those and for secret predicates by combining all branches, and out-of-range case indices select the default branch.',
 ['programs','inputs'],'all predicates, numbers of branches, indices (negative and out of range included), and iteration counts','Tests run one branch of each construct.',
 [K+'hlo/control_flow.cc'],[('control flow',K+'hlo/control_flow.cc')],['opened results; calls of each body'])
p('C20','Typed arithmetic obeys the element-type rules',
 'Typed operators on integers, booleans and fixed-point numbers return the value and the element type that the promotion rules give for the plain operands, on every mix of types and visibilities: integer and boolean results are exact, fixed-point results are within the stated error, and conversions preserve the represented number.',
 ['inputs','configurations'],'all pairs of element types and visibilities, all values in range including the extremes, rings of 32, 64 and 128 bits',
 'Tests sample three values per type pair.',
 [K+'hal/polymorphic.cc',K+'hal/integer.cc',K+'hal/fxp_base.cc',K+'hal/type_cast.cc',K+'hlo/basic_binary.cc',K+'hlo/basic_unary.cc',K+'hlo/casting.cc'],[('type dispatch',K+'hal/polymorphic.cc'),('fixed-point base',K+'hal/fxp_base.cc')],['opened values and types'])
p('C21','Fixed-point functions stay within their error bound on their whole domain',
 'Reciprocal, division, square root, inverse square root, exponential, logarithm, hyperbolic tangent, logistic and trigonometric functions return on their whole supported domain, for public and secret arguments, a value within the documented error of the real function.',
 ['inputs','configurations'],'all arguments in the supported domain, rings of 64 and 128 bits, all approximation modes','Tests evaluate about ten points per function.',
 [K+'hal/fxp_approx.cc',K+'hal/fxp_base.cc',K+'hal/fxp_cleartext.cc'],[('approximations',K+'hal/fxp_approx.cc')],['opened values'])
p('C22','Bit-level circuits and bit utilities are exact at every width',
 'Prefix adders, carry circuits, bit reversal, interleaving and de-interleaving, odd-even splits, parity, population count, prefix-or, leading-bit and power-of-two helpers return the exact bit pattern for every width and every argument, and interleaving and de-interleaving are inverse.',
 ['inputs','configurations'],'all widths from 1 to 128 bits and all arguments','Tests use one width and few patterns.',
 [M+'utils/circuits.h',C+'bit_utils.h',C+'bit_utils.cc',K+'hal/ring.cc'],[('circuits',M+'utils/circuits.h'),('bit helpers',C+'bit_utils.h')],['result words'])
p('C23','Oblivious transfer and two-party comparison protocols are exact',
 'In every oblivious transfer the receiver obtains exactly the messages it chose, and the two-party comparison, equality, truncation, multiplexing and bit-to-arithmetic protocols open to the exact result for every input, batch size and message width.',
 ['inputs','configurations'],'all choices, messages, widths, batch sizes and radixes, given ideal base transfers','Tests draw one batch per configuration.',
 [M+'cheetah/ot',M+'cheetah/nonlinear'],[('transfer wrappers',M+'cheetah/ot/basic_ot_prot.cc'),('comparison trees',M+'cheetah/nonlinear/compare_prot.cc')],['outputs of both parties'])
p('C24','Secret group-by and keyed pseudo-random functions match their plain definition',
 'Group-by aggregations over secret keys return for every group what the plain aggregation returns; the block cipher evaluated on secrets equals its plain evaluation and equal inputs give equal tags while different inputs give different tags.',
 ['inputs','configurations'],'all key and value columns, with ties, all group counts; all cipher inputs','Tests use one small table and one block.',
 [K+'hal/group_by_agg.cc',K+'hal/soprf.cc',M+'utils/lowmc.cc',M+'utils/lowmc_utils.cc'],[('aggregation by scan',K+'hal/group_by_agg.cc'),('cipher',M+'utils/lowmc.cc')],['opened columns'])
p('C25','Half-precision numbers and debugging dumps are faithful',
 'The 16-bit float type rounds, compares, classifies and converts exactly as the IEEE half format prescribes, and the files of a debugging dump are named so that every rank, variable and chunk is found again under the name it was written to and no two of them collide.',
 ['inputs'],'all 65536 half values and all float arguments; all ranks, names and chunk numbers','Tests convert a few round numbers.',
 [C+'half.h','src/libspu/device/utils/debug_dump_constant.cc'],[('conversion',C+'half.h')],['bit patterns'])
p('C26','The Python front end preserves data, names and visibilities',
 'Secret group-by written against the Python API returns what the plain table operation returns, and the Python input-output and runtime wrappers hand every array, name and visibility unchanged to the runtime and back.',
 ['inputs','histories'],'all tables with ties and all group counts; all histories of input-output calls','Tests need the compiled extension and run one table.',
 ['spu/ops/groupby','spu/api.py'],[('segmented scans','spu/ops/groupby/aggregation.py'),('wrappers','spu/api.py')],['returned arrays'])
p('C27','Compiled programs execute each operation once, after its inputs',
 'Executing a compiled program, sequentially or in parallel, runs every operation exactly once after all operations it depends on, with values looked up in the right scope, and produces the result of sequential execution.',
 ['programs','schedules'],'all programs and all schedules of the parallel executor','Tests run fixed programs, mostly sequentially.',
 ['src/libspu/device/executor.cc','src/libspu/device/pphlo/pphlo_executor.cc'],[('parallel runner','src/libspu/device/executor.cc')])
p('C28','Compiler passes preserve the meaning of programs',
 'The compiler translates every accepted program into one with the same results and with visibilities that never make a secret public.',
 ['programs'],'all input programs and pass combinations','Tests compare text of fixed programs.',
 ['src/libspu/compiler','src/libspu/dialect'],[('passes','src/libspu/dialect/pphlo/transforms')])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
for x in P:
    assert len(x['title'])<=80,x['title']
    print(x['id'],x['title'],len(x['statement']))
