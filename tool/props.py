"""The properties and how each is decided (source of properties.jsonl and MANIFEST.json)."""
L = 'src/libeopsi/'
PROPS = []
NA = []


def prop(id, title, statement, over, qtext, why, files, mech, technique, note):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over.split(), qtext=qtext, why=why,
                      files=[L + f for f in files.split()], mech=[(n, L + w) for n, w in mech], technique=technique, note=note))


def na(id, title, statement, over, qtext, why, files, mech, reason):
    NA.append(dict(id=id, title=title, statement=statement, over=over.split(), qtext=qtext, why=why,
                   files=[L + f if not f.startswith('src/') else f for f in files.split()], mech=[(n, (L + w)) for n, w in mech], reason=reason))


prop('C01', 'Only entitled, registered senders are heard; refusals leave no trace',
     'A client or server acts on a message only if one is present, it comes from another party that was registered with the receiver, and '
     'the sender\'s role may send that kind of message to it (to a client: computation requests and polynomials from clients, computation '
     'outputs from servers; to a server: outsourced data and cloud computation requests from clients). Every other message is refused with a protocol '
     'error, and the refusal changes no state of the receiver, sends nothing, releases nothing and does not end the process. Registering a party makes exactly that '
     'other party known, under its own identifier.',
     'inputs histories', 'every message (sender, kind, payload) in every state of the receiver',
     'The test programs exchange only the handful of well-formed messages of one protocol run; no test sends a message from an unknown, wrong-role or own party.',
     'eopsiclient.cpp eopsiserver.cpp eopsiparty.cpp',
     [('sender checks at the head of both handlers', 'eopsiclient.cpp receive(), isAuthorised()'), ('server side', 'eopsiserver.cpp receive(), isAuthorised()'), ('registry', 'eopsiparty.cpp authenticate(), getPartyById()')],
     'interprocedural value-flow summaries; path-condition entailment at every effect and exit',
     'assumes registered party pointers are valid and a party\'s identifier does not change after registration.')

prop('C02', 'Each request is answered along the protocol route, and nothing else is sent',
     'While serving a client\'s computation request, a client sends a cloud computation request to a registered server and then its polynomial to the client that '
     'asked; while serving a cloud computation request, a server sends its output to the partner named in the request. A request that is accepted is always '
     'answered this way, and no message of any other kind, to any other party or at any other time is sent. Every message sent carries the identifier of the party that sends it.',
     'inputs histories', 'every message and every set of registered parties',
     'One run with two clients and one server is the only exchange tested; registries with several servers or partners are never formed.',
     'eopsiclient.cpp eopsiserver.cpp eopsiparty.cpp eopsimsg.cpp',
     [('cloud search and both sends', 'eopsiclient.cpp receive()'), ('output to the partner', 'eopsiserver.cpp receive()'), ('delivery', 'eopsiparty.cpp send()')],
     'interprocedural value-flow summaries; sent messages compared with the protocol table as value terms',
     'assumes an answering party refuses only with a protocol error.')

prop('C03', 'Requests are bound to their sender and refused only for a stated cause',
     'A computation request is answered only if its payload names the party that sent it and, at a server, only if the partner it names is registered and both parties have outsourced '
     'data. A well-formed request of an entitled sender that meets these conditions is not refused, and one that does not is refused with a protocol error. '
     'Outsourced data of an entitled sender is kept under that sender\'s identifier, and serving a request neither adds, replaces nor removes stored data.',
     'inputs histories', 'every payload, registry and set of outsourced data',
     'No test forges a payload, names an unknown partner or asks before data was outsourced.',
     'eopsiclient.cpp eopsiserver.cpp',
     [('identity comparison', 'eopsiclient.cpp receive()'), ('identity, partner and data checks', 'eopsiserver.cpp receive(), intersectionOutput()'), ('store', 'eopsiserver.cpp receive()')],
     'interprocedural value-flow summaries; guards of answers and refusals as exact conditions',
     'stored messages are assumed valid until replaced.')

prop('C04', 'A handler never reads a request payload beyond its announced length',
     'While a computation request is handled, every read through its payload (identifiers, secret, key) lies inside the announced length of the message; '
     'a payload that is missing, too short or lacks a terminator inside that length is refused before anything beyond it is read.',
     'inputs', 'every payload and announced length of the two request kinds',
     'Tests only send payloads built by the library itself, whose length always matches.',
     'eopsiclient.cpp eopsiserver.cpp eopsimsg.cpp',
     [('length checks before reading', 'eopsiclient.cpp receive()'), ('length checks before reading', 'eopsiserver.cpp receive()')],
     'value-flow summaries; extents of all payload reads as linear forms, bounded by linear entailment',
     'the announced length is assumed to be the allocated one; polynomial and output messages carry no byte length and are outside the property.')

prop('C05', 'Every outsourced value is masked by its own pseudo-random value',
     'Each value a client outsources is the value of its bucket\'s polynomial at a public point plus one mask drawn from the client\'s secret, as wide as the field; '
     'no two outsourced values share a mask. The polynomial is that of the bucket after the hash table was concealed, and only these masked values are handed out.',
     'inputs', 'every data set, secret, number of buckets and evaluation degree',
     'Tests see only that the final intersection is right for one parameter set, which unmasked or equally masked data would satisfy too.',
     'eopsiclient.cpp zzpprf.cpp ntlmiss.cpp',
     [('blinding', 'eopsiclient.cpp blind()'), ('mask generator', 'zzpprf.cpp generate(seed, index, bits)')],
     'value-flow summary; element term compared with polynomial-plus-mask; injectivity of the index term by mixed-radix range reasoning',
     'assumes the secret reduced to the field is used for one data set only; the pseudo-random function itself is C14/C15.')

prop('C06', 'The polynomial half is the server\'s function applied to the masks',
     'The polynomial half a client computes for a requester equals, value by value, what the server computes from outsourced data when the own masks stand for the own data and the masks of the requester\'s secret stand '
     'for the requester\'s data, under the same key. The half a client sends is the one for its own secret, the secret in the request, and the key it sent to the server.',
     'inputs', 'every secret, key, field and parameter set, at every position',
     'The cancellation of masks is observed only through one final intersection of one simulated run per parameter set.',
     'eopsiclient.cpp eopsiparty.cpp',
     [('masks regenerated', 'eopsiclient.cpp delegationOutput()'), ('blinding', 'eopsiclient.cpp blind()'), ('common function', 'eopsiparty.cpp computeTOrQ()')],
     'value-flow summaries of both sides; symbolic substitution of mask terms into the server\'s element term and comparison of normal forms',
     'assumes parties agree on field, length, height and degree.')

prop('C07', 'Server and client compute with the same roles and the same key',
     'From the cloud request a client writes, the server reads exactly the client\'s identifier, the identifier of the party it serves, and the key the client computes its polynomial half with. '
     'The server\'s output is its function of the data outsourced by the requester and by the partner, in this order, under that key.',
     'inputs', 'every pair of identifiers, every key and all stored data',
     'Tests use three fixed identifiers and one random key per run; an encoding that breaks for other lengths or key bytes passes.',
     'eopsiclient.cpp eopsiserver.cpp eopsiparty.cpp',
     [('request written', 'eopsiclient.cpp receive()'), ('request parsed', 'eopsiserver.cpp receive()'), ('roles', 'eopsiserver.cpp intersectionOutput()')],
     'composition of two value-flow summaries: bytes written by one are substituted for the bytes read by the other, results compared as terms',
     'identifiers contain no NUL character.')

prop('C08', 'Public points depend only on the field and the position, and never change',
     'The public points at which polynomials are evaluated and interpolated depend on nothing but the field size and their position, each from its own pseudo-random index. Once generated they are returned and kept '
     'unchanged, and blinding, computing and intersecting all use them.',
     'inputs histories', 'every field size, number of points and order of calls',
     'All parties of a test run in one process with one parameter set, so points that depended on other state would still agree.',
     'eopsiparty.cpp eopsiclient.cpp',
     [('generation', 'eopsiparty.cpp generateUnknowns()'), ('cache', 'eopsiparty.cpp getUnknowns()'), ('uses', 'eopsiclient.cpp blind(), intersect()')],
     'value-flow summaries; dependence set of the point term, injectivity of its index, equality at all uses',
     'a party\'s degree is assumed unchanged after points were generated.')

prop('C09', 'The intersection is exactly the unpadded acceptable roots of output minus half',
     'Every element is inserted once, padded with all the zero bits the field leaves below its topmost bit; the intersection gathers, for every bucket polynomial interpolated from output minus polynomial half, '
     'the roots of its linear factors that are zero or carry that padding, with the padding removed. It is computed exactly when both halves are there and left alone otherwise.',
     'inputs', 'every pair of halves, every data width below the field width',
     'Tests use random sets from one range and compare sizes; zero, boundary widths and values without padding are not produced.',
     'eopsiclient.cpp zzppoly.cpp ntlmiss.cpp',
     [('padding', 'eopsiclient.cpp padSize(), blind()'), ('filter', 'zzppoly.cpp findIntersection()'), ('difference', 'eopsiclient.cpp intersect()')],
     'value-flow summaries; gathered roots compared, as a fold term, with the specification',
     'assumes data at least two bits narrower than the field; factorisation and interpolation are trusted NTL functions.')

prop('C17', 'Output minus half vanishes at every common element',
     'Under one key, the server\'s output minus the polynomial half is, bucket by bucket and point by point, the value of one party\'s polynomial times that of one random polynomial plus the value of the other party\'s polynomial times that of another. '
     'Each random polynomial belongs to the key and the bucket alone, has leading coefficient one at exactly the agreed degree and all lower coefficients drawn under the key. Hence each common element of a bucket is a root of the combination, whatever the sets, keys and masks.',
     'inputs', 'every data, secret, key, number of buckets, height and degree',
     'A wrong random polynomial in some bucket or a term that does not cancel shows only for sets with a common element there; tests look at one set size.',
     'eopsiparty.cpp eopsiclient.cpp eopsiserver.cpp',
     [('combination', 'eopsiparty.cpp computeTOrQ()'), ('random polynomials', 'eopsiparty.cpp genOmega()'), ('half', 'eopsiclient.cpp delegationOutput()')],
     'value-flow summaries; linearity of the element term in the two outsourced values, coefficients compared with values of one monic polynomial, difference of output and half compared after substitution of data',
     'that few other values are roots is a probabilistic statement and not decided; interpolation needs more points than the degree of the combination, which is the caller\'s choice of parameters.')

prop('C16', 'No pseudo-random value is used twice under one key',
     'While one half is computed under a key, the masking values and the coefficients of the random polynomials of all buckets and both parties are drawn at pairwise different indices of that key, for every number of buckets, height and degree '
     'not below the height. The same holds for the masks of each secret.',
     'inputs', 'every length, height and degree >= height',
     'Reuse changes no intersection: the same values cancel on both sides, so no test can notice.',
     'eopsiparty.cpp eopsiclient.cpp',
     [('index bases', 'eopsiparty.cpp computeTOrQ()'), ('coefficients', 'eopsiparty.cpp genOmega()')],
     'value-flow events; index terms recognised as mixed-radix numberings with disjoint ranges by linear entailment',
     'assumes indices do not overflow 64 bits.')

prop('C18', 'The two halves are kept until both are there, then used once and released once',
     'A client keeps the first half it receives (output or polynomial half) and leaves the intersection alone; when the other half arrives, in either order, it computes the intersection, releases both halves exactly once and forgets them, '
     'so that the next exchange starts afresh. Computation requests touch neither half nor the intersection.',
     'histories', 'every order and repetition of incoming messages',
     'Tests receive the halves of one exchange in one order.',
     'eopsiclient.cpp',
     [('handling of both halves', 'eopsiclient.cpp receive()'), ('readiness', 'eopsiclient.cpp intersect()')],
     'value-flow summary of the handler; final pointer values and release conditions per message kind and state',
     'a half is assumed distinct from the other half.')

prop('C10', 'Hash tables keep every element, in order, and no bucket exceeds its load',
     'Inserting an element into a hash table puts it last into one bucket, counts it, and leaves every other bucket, every earlier element, every mark and the table\'s dimensions as they were; inserting a batch inserts each of '
     'its elements once, in order. An insertion into a full or non-existent bucket, like reading a non-existent bucket, ends the process with code 1, and no other insertion or reading fails. A new table consists of the requested number of empty buckets with '
     'the requested maximum load and counts no element.',
     'inputs histories', 'every table state, element, bucket index, dimension and batch',
     'Tests fill tables whose buckets never reach the maximum load and look at sizes only.',
     'hashbuckets.hpp hashtable.hpp',
     [('insertion and its limits', 'hashbuckets.hpp addToBucket()'), ('batch insertion', 'hashtable.hpp add(elements, size)'), ('bucket access', 'hashtable.hpp getBucket()')],
     'value-flow summaries; the bucket array after each operation compared with the one before as array terms, exit conditions compared exactly',
     'reading a bucket hands out its elements (marks are not copied by value).')

prop('C11', 'Concealing fills every bucket with independent draws and keeps the elements',
     'Concealing a hash table fills every bucket up to the maximum load, each filler drawn by its own call of the given generator, keeps every element in its place, marks exactly the buckets that were '
     'empty (besides those already marked) and leaves the element count and dimensions alone. A generator used without a seed and index chooses one seed at its first use and keeps it, and moves its index on by one for each value, so that no '
     'draw repeats a position.',
     'inputs histories', 'every table state, maximum load and generator state',
     'Tests conceal one table and print it; repeated fillers or lost elements in particular buckets go unnoticed.',
     'hashbuckets.hpp prf.hpp',
     [('filling', 'hashbuckets.hpp conceal()'), ('successive draws', 'prf.hpp generate()')],
     'value-flow summary; loop-position dependence of each draw; array-term comparison',
     'the generator\'s draws are treated as distinct when they are distinct calls.')

prop('C12', 'An element\'s bucket is its digest, as a number, modulo the number of buckets',
     'The number built from a digest is the little endian value of exactly its bytes (the first ones, when it has not been made for so many), whatever was built before, and its remainder is the arithmetic one. With a hash algorithm set, an element is inserted into the bucket whose index is '
     'the number of its digest (over its whole text, all digest bytes) modulo the number of buckets. Setting the algorithm of hash buckets makes it the one used, with a number of that algorithm\'s digest size, and setting none changes nothing.',
     'inputs histories', 'every digest length and content, element, number of buckets and order of algorithms set',
     'Tests use one digest length per table and cannot tell a wrong bucket from a right one, as all parties of a run would err alike.',
     'hashbuckets.hpp strint.cpp',
     [('placement', 'hashbuckets.hpp add()'), ('number of a digest', 'strint.cpp set(), rem()'), ('choice of algorithm', 'hashbuckets.hpp setHashAlgorithm()')],
     'value-flow summaries with constant propagation of the digest length; polynomial normal forms over the digest bytes',
     'digest lengths are enumerated: those of the library\'s algorithms and boundary lengths (all up to 64 in the thorough tier); contents are arbitrary.')

prop('C13', 'MurmurHash3 digests are those of the published x64 128-bit algorithm',
     'For every element, length limit and seed, the 16 digest bytes MurmurHash3 hands out are those of the published MurmurHash3 x64 128-bit algorithm over the decimal digits of the element, cut to the limit if one is given. '
     'Hashing leaves the seed alone, and the digest size is 16.',
     'inputs', 'every element, length limit and seed',
     'Tests print a few digests and compare nothing; an error in one tail length needs a text of that length modulo 16 to show.',
     'murmurhash3.cpp',
     [('block and tail mixing', 'murmurhash3.cpp MurmurHash3_x64_128()'), ('text and seed', 'murmurhash3.cpp hash()')],
     'translation-level comparison: value-flow summaries of the library and of the reference (spec/murmur_ref.cpp) compared as 64-bit terms',
     'little endian 64-bit platform; texts shorter than 2^31 bytes.')

prop('C14', 'Pseudo-random values are determined by the whole seed, index and width',
     'The pseudo-random function\'s value for a seed, an index and a width consists of the first bytes of the chain of SHA-1 digests that starts with all bytes of the seed followed by all eight bytes of the index, and each further '
     'digest is that of the previous one. Nothing else, in particular no earlier call, influences it. A field value is that number reduced to the field, as wide as asked for but never wider than the field.',
     'inputs histories', 'every seed, index and earlier use, at each of the listed widths',
     'Tests draw values and print them; a value that depended on earlier calls or ignored part of the seed would look as random.',
     'zzprf.cpp zzpprf.cpp shabyte.cpp',
     [('digest chain', 'zzprf.cpp generate(seed, index, bits)'), ('field values', 'zzpprf.cpp generate(seed, index, bits)')],
     'value-flow summary from arbitrary buffer states; generated bytes compared, as terms, with the digest chain',
     'widths are enumerated (1 to 512 bits around every byte and digest boundary, up to 1600 in the thorough tier); SHA-1 is trusted.')

prop('C15', 'A pseudo-random value has exactly as many bits as asked for',
     'A pseudo-random number generated at a width of b bits is below 2^b and can take every value below it: the bytes of the value are those the width needs, and only the excess bits of the most significant byte are cut.',
     'inputs', 'every seed and index, at each of the listed widths',
     'No test checks a bound on drawn values, and values beyond the width are rare or cut later by reduction to the field.',
     'zzprf.cpp',
     [('bytes of the value', 'zzprf.cpp generate(seed, index, bits)'), ('excess bits', 'zzprf.cpp generate(), shifts of the last byte')],
     'value-flow summary; interval bounds of every byte term of the generated number',
     'widths enumerated as for C14; digest bytes may take any value.')

prop('C20', 'Digest objects, buffers and sizes agree for each hash flavour',
     'Choosing a flavour of the secure hash selects its digest algorithm, a digest buffer with exactly that algorithm\'s room and the digest size reported (32 bytes for SHA-256, 20 for SHA-1, which is also used for any other flavour). '
     'The digest handed out is that of exactly the given bytes, or of the text of the element or string, cut to the length limit if one is given. Nothing beyond these bytes is read, and a byte array of no bytes has no digest.',
     'inputs histories', 'every flavour, element, string, byte array and length limit',
     'Tests use one flavour each on a few elements and print the digests.',
     'sha.hpp shazzp.cpp shastr.cpp shabyte.cpp',
     [('choice of algorithm', 'sha.hpp setFlavour()'), ('digests', 'shazzp.cpp hash()'), ('digests', 'shastr.cpp hash()'), ('digests', 'shabyte.cpp hash()')],
     'value-flow summaries; allocation extents and digest input ranges as terms',
     'the Crypto++ digest classes are trusted.')

prop('C21', 'A benchmark\'s figures are exactly those of the intervals it measured',
     'A benchmark takes one time of the clock when it starts, at each step, when a pause begins and when it stops unless paused, and no other: operations that make no sense in its state (pausing before the start or twice, stepping or pausing once '
     'stopped) take none; a restart forgets all times, pauses and names; a name stands for the last time it was given to. The time of a cursor is its interval, cumulative times, averages, variances, minima and maxima are over exactly the intervals '
     'asked for, without those that are pauses if these are left out, and are zero if there are none; no figure reads beyond the times taken.',
     'histories', 'every sequence of operations, every cursor and name',
     'Tests print the figures of one fixed sequence of operations.',
     'simplebm.cpp',
     [('times taken', 'simplebm.cpp takeTime()'), ('intervals left out', 'simplebm.cpp sumNotPausedTimes()'), ('figures', 'simplebm.cpp benchmark()'), ('extremes', 'simplebm.cpp minOrMax()')],
     'value-flow summaries of every operation over an arbitrary state; induction over operations; sums and folds compared with their definitions',
     'floating point is read as exact arithmetic; the clock is trusted.')
prop('C19', 'Memory has one owner and is released once, in its form, and not used afterwards',
     'Every piece of memory that a function of the library allocates is released once in the form it was allocated in, on every normal path, unless its address lives on in a member that its object releases, in a message or in the result. '
     'Nothing is used or released again after its release, no member keeps an address of released memory or of a local object, members that destructors release hold only memory of their own or none, and their old memory is released when they are replaced, unless it was given away; '
     'a message\'s payload belongs to its receiver, who releases it in the form its sender allocated it in, and the numbers of the C library that an object initialises are the ones it clears.',
     'inputs', 'every function of the library, all inputs and member values',
     'Tests do not look at memory.',
     'eopsiclient.cpp eopsiserver.cpp eopsiparty.cpp zzppoly.cpp zzprf.cpp strint.cpp sha.hpp hashbuckets.hpp',
     [('payload of a request', 'eopsiserver.cpp receive()'), ('halves', 'eopsiclient.cpp receive()'), ('scratch memory', 'eopsiclient.cpp blind()'), ('results of polynomials', 'zzppoly.cpp findIntersection()'), ('buffers', 'zzprf.cpp generate()')],
     'ownership analysis on value-flow summaries: every allocation and release with its exact condition, reachability of the address from what outlives the call, members against what destructors release',
     'memory left behind by an exception is not counted; the client\'s blinded data, which it gives away, may be replaced without being released.')
prop('C23', 'StrInt is exact arithmetic on natural numbers of any size',
     'A StrInt constructed from or set to bytes is their little endian value, as far as its capacity goes, and set to a machine word is that word; inc adds one, add adds its whole argument, rem is the remainder, lsb the low word, toString the decimal text, '
     'and none of them changes anything else. getByteSize is the least number of bytes of the number (one for zero), toBytes gives exactly that many, highest first, in the caller\'s buffer if it is large enough and in new memory of that size otherwise, tells the length, and never gives up or writes further.',
     'inputs', 'every number, argument and buffer size; construction for the capacities and lengths listed in the evidence',
     'Tests convert a few small numbers.',
     'strint.cpp',
     [('construction', 'strint.cpp StrInt()'), ('arithmetic', 'strint.cpp inc()'), ('bytes', 'strint.cpp toBytes()')],
     'value-flow summaries of each operation over an arbitrary number compared with their definitions',
     'GMP is trusted to compute what its manual says.')
prop('C24', 'Exceptions carry what they are given, and no failure looks like a success',
     'An exception carries exactly the message, fatality and exit code it is made with, whatever they are, and one made as fatal ends the process at once with that code; out of bound exceptions have code 1, and a message of their own if they are given none. '
     'Each accessor reads or sets its own part only, and what() shows the current message. No path through the library ends the process with the success code.',
     'inputs histories', 'every message, fatality and code, every order of accessor calls, every exit of the library',
     'A test that reaches a fatal exception ends; the exit paths of the library are not reached by the tests.',
     'exception.cpp outofboundex.cpp protocolex.h',
     [('construction', 'exception.cpp Exception(), outofboundex.cpp, protocolex.h'), ('fatality', 'exception.cpp handleFatality()'), ('exits', 'all exit() calls of src/libeopsi')],
     'value-flow summaries compared exactly; code of every exit event of every library function',
     'exits whose code is the one an exception was made with are the caller\'s choice.')

prop('C26', 'Number and vector conversions keep every element and round sizes up',
     'The number of blocks or bytes of a bit string, number or residue is the least that holds all its bits. Padding a number multiplies it by exactly the power of two asked for, or, when padding to a width, by the one that leaves it one bit short of that width, and a number that is wide enough is left alone. '
     'Converting an array or vector of residues gives the same elements in the same order and no others, whatever the target held before; converting no array leaves the target alone.',
     'inputs', 'every number, width, array, vector, length and earlier content of the target',
     'Tests convert buckets of one length and never compare contents; padding to a width and arrays are not tested at all.',
     'ntlmiss.cpp',
     [('sizes', 'ntlmiss.cpp blocks(), bytes()'), ('padding', 'ntlmiss.cpp zeroPad(), zeroPadTo(), countLeadingZeros()'), ('vectors', 'ntlmiss.cpp vector2VecZZp(), array2VecZZp()')],
     'value-flow summaries; lengths and a generic element compared as terms',
     'widths below 2^32; log2 and printing are not covered.')

prop('C27', 'Parties and messages keep exactly what they are told',
     'A party is made with exactly the identity, role, field, sizes, hash table and secret it is given, knows nobody and holds no data; a message holds the data, length, type and sender it is given, and announces the size of a pointer when it has no data. '
     'Every setter changes what it names, with what derives from it (bit width, generator of masks, public points of another field or degree), and nothing else, and every getter tells the current value (of blinded values, as many as buckets times public points). No other operation changes a party\'s identity, role, field, sizes, secret or hash table; '
     'own data change only when data are set, acquaintances only by authentication.',
     'inputs histories', 'every argument and every order of calls on parties, messages and markable vectors',
     'Tests make each party once with the same arguments and call no setter afterwards.',
     'eopsiparty.cpp eopsiclient.cpp eopsiserver.cpp eopsimsg.cpp markedvector.hpp',
     [('parties', 'eopsiparty.cpp, eopsiclient.cpp, eopsiserver.cpp: constructors, setters, getters'), ('messages', 'eopsimsg.cpp'), ('marks', 'markedvector.hpp')],
     'value-flow summaries of every constructor, setter and getter compared member by member; frame condition over all member functions of the parties',
     'what messages already sent or stored contain is not adapted when a field or degree is changed.')

prop('C28', 'Nothing is computed from memory nobody wrote',
     'Every object is fully determined by its constructor, and no result, message, decision, failure or state left behind depends on a value nobody assigned: not on an unset variable or member, and not on bytes of a fresh buffer. '
     'Arrays handed out or sent are written in every element. Two runs on the same inputs and random draws therefore agree whatever the memory held before.',
     'inputs histories', 'every function of the library, all arguments and states, every content of fresh memory',
     'Fresh memory is mostly zero in a test program, which is the value most unset variables should have had.',
     'eopsiclient.cpp eopsiparty.cpp eopsiserver.cpp eopsimsg.cpp simplebm.cpp strint.cpp zzppoly.cpp zzprf.cpp murmurhash3.cpp sha.hpp hashbuckets.hpp hashtable.hpp markedvector.hpp',
     [('members', 'eopsiclient.cpp, simplebm.cpp, zzppoly.cpp: constructors'), ('buffers', 'eopsiclient.cpp receive(), strint.cpp toBytes()')],
     'value-flow summary of every function with undefined scalars as symbols of their own; non-interference: every sink must be the same term under its path condition when the symbols are exchanged',
     'members are taken as determined by the constructors (which is an obligation); a buffer an object keeps may be larger than its content; the exact values of the generator and of StrInt are left to C14 and C23.')

prop('C29', 'Polynomials handled step by step are those handled at once, in any order',
     'A batch of polynomials, in whatever state and after whatever calls, holds exactly the polynomials through the points it was last given, monic when asked, with arrays large enough for them; its size, padding and factors are those of these polynomials, never of earlier ones. '
     'Interpolating, factorising and finding the intersection one after the other gives the same polynomials, factors and roots as doing it at once. Steps taken too early change nothing and report no root, and asking again gives the same answer.',
     'histories', 'every order of calls, number of polynomials, points and padding',
     'Only one test program uses the class, once, with the steps in one order and always as many polynomials.',
     'zzppoly.cpp zzppoly.h',
     [('steps', 'zzppoly.cpp interpolate(), makeMonic(), factorise(), findIntersection()'), ('at once', 'zzppoly.cpp findIntersection(points)')],
     'value-flow summaries of every operation from an arbitrary state; arrays afterwards compared at a generic position; room in the arrays and validity of the factors as inductive invariants',
     'interpolation and factorisation of NTL are trusted, and do not depend on the algorithm chosen but for the order of factors; factorising wants monic polynomials, as documented.')

prop('C30', 'Every access stays inside its array',
     'No operation of the library, whatever its inputs and the state its object has reached, reads or writes an element or byte outside the array or vector it works on: digests, seeds, strings, buckets, polynomials, point matrices, unknowns and run times are accessed only within what was allocated for them, '
     'and the members that tell how many elements an array has never say more than there are. '
     'The number of data, degree, buckets and their height are at least one and stay as they were while data are in use; arrays given along with a count have at least as many elements, and what a received payload holds is a matter of its own.',
     'inputs', 'every input, state and history within the documented preconditions',
     'An access a few bytes too far seldom shows in a test; it depends on sizes the tests do not sample (seeds as long as a buffer, arrays reused for more elements, the last bucket).',
     'zzprf.cpp strint.cpp sha.hpp murmurhash3.cpp hashbuckets.hpp hashtable.hpp zzppoly.cpp ntlmiss.cpp eopsiclient.cpp eopsiparty.cpp eopsiserver.cpp simplebm.cpp',
     [('buffers', 'zzprf.cpp generate()'), ('big integers', 'strint.cpp operator+(), toBytes(), printPow2()'), ('buckets', 'hashbuckets.hpp addToBucket()'), ('matrices', 'eopsiparty.cpp computeTOrQ()'), ('vectors', 'ntlmiss.cpp array2VecZZp()'), ('input', 'murmurhash3.cpp hash()')],
     'value-flow summary of every function; under the condition of every access its first and last element are shown to lie inside what was allocated; sizes kept in members are inductive invariants',
     'accesses to single objects through pointers and inside NTL, Crypto++ and the standard library are not judged.')

prop('C31', 'Divisions and shifts are always defined',
     'No operation of the library, whatever its inputs and the state its object has reached, divides by zero, takes a remainder of a division by zero or shifts a number by as many bits as it is wide or more: sizes, bit counts, averages and statistics, also of tables with one bucket and of times that were all paused, never end the process or give an undefined number. '
     'The number of data, degree, buckets and their height are at least one, and so are the block size given to NTL::blocks() and the divisor given to StrInt::rem().',
     'inputs', 'every input, state and history within the documented preconditions',
     'The divisors that become zero belong to the smallest tables and to histories without a single interval that counts, which tests leave out; a shift that is too wide gives a plausible number on one machine and another on the next.',
     'zzprf.cpp strint.cpp ntlmiss.cpp murmurhash3.cpp hashbuckets.hpp eopsiclient.cpp simplebm.cpp',
     [('averages', 'simplebm.cpp average(), variance()'), ('statistics', 'hashbuckets.hpp printStats()'), ('bits', 'zzprf.cpp generate()'), ('hash', 'murmurhash3.cpp MurmurHash3_x86_128()')],
     'value-flow summary of every function; under the condition of every division, remainder and shift the divisor is shown not to be zero and the number of bits to lie below the width',
     'divisions inside NTL, GMP and the standard library are not judged, nor is overflow of additions and multiplications.')

prop('C25', 'A call changes nothing but the objects involved',
     'When any function of the library returns or throws, everything that belongs to no object in particular is as it was at the call: the current field modulus of NTL, the random-number state of NTL and of the C library (but for what drawing a number consumes, and for a MurmurHash3 made without a seed, which seeds rand()), the locale and the handlers of the process, '
     'the way std::cout, std::cerr and a caller\'s stream write numbers, and every global and static variable. A result therefore depends on the objects and arguments involved and never on what was done before with other objects.',
     'inputs histories', 'every function of the library, every way out of it, every state of the process before',
     'A test works with one field and one object of a kind, looks at no later output, and runs in a process of its own.',
     'zzprf.cpp zzpprf.cpp shazzp.cpp murmurhash3.cpp hashbuckets.hpp eopsiclient.cpp eopsiserver.cpp eopsiparty.cpp zzppoly.cpp strint.cpp ntlmiss.cpp',
     [('modulus', 'eopsiclient.cpp, eopsiserver.cpp, zzpprf.cpp: setFieldsize(), setModulo()'), ('random numbers', 'zzprf.cpp randomSeed(), murmurhash3.cpp MurmurHash3()'), ('streams', 'hashbuckets.hpp printStats(), strint.cpp operator<<')],
     'effect summary of every entry function by value-flow analysis: each cell of a global or static variable, of a library setting, or of the format of a stream must at every way out equal its value at the call',
     'a run that ends the process is not looked at; a saved context of NTL put back (ZZ_pPush) is not understood and would be reported as undecided; text buffered in a stream is not a change.')

prop('C32', 'Figures printed are those of the tables and the measurements',
     'Every figure the library writes to the standard output is the value its label announces, whatever the state of the objects: HashBuckets::printStats names as least and greatest size, as buckets of those sizes, as total, mean, variance and standard deviation, as maximum load and as number of buckets, '
     'exactly those of the sizes of all the buckets (rounding of floating-point numbers aside, differences never cut to whole numbers), and when asked for everything lists every bucket once with its number and its size, none that is not there. '
     'The times the client and the servers report are the average, deviation or total of the measurements of the step they are printed under, in the unit printed after them; the numbers of polynomials and of common elements reported are the actual ones, and printZZArray prints every element of the array once and in order.',
     'inputs histories', 'every size and content of the tables and the arrays, every measured time',
     'Tests do not read what is printed.',
     'hashbuckets.hpp eopsiclient.cpp eopsiserver.cpp zzppoly.cpp ntlmiss.cpp',
     [('statistics', 'hashbuckets.hpp printStats()'), ('times', 'eopsiclient.cpp receive(), intersect(); eopsiserver.cpp receive()'), ('arrays', 'ntlmiss.cpp printZZArray()')],
     'value-flow of everything written to std::cout, cut into words and figures; every figure compared, as a real number, with the value its label and its unit announce',
     'figures are recognised by the words before them: a label nobody knows is reported as undecided; wording, spacing and order of the text are free.')

prop('C22', 'A failed allocation ends the program with status 2',
     'Whenever an allocation made by the library itself fails, at any place and in any state, the program ends with exit status 2: it never goes on, never reports success or another status, and the failure does not leave the library as an exception.',
     'fault_sequences', 'every allocation expression of the library, all states',
     'Tests do not run out of memory.',
     'eopsiclient.cpp eopsiparty.cpp eopsiserver.cpp zzppoly.cpp zzprf.cpp strint.cpp sha.hpp hashbuckets.hpp hashtable.hpp hashalgorithm.hpp murmurhash3.cpp',
     [('allocations', 'eopsiclient.cpp blind()'), ('allocations', 'zzppoly.cpp findIntersection()'), ('allocations', 'zzprf.cpp generate()')],
     'every allocation made to fail in the value-flow summary of its function, through the handlers that apply',
     'allocations inside NTL, GMP, Crypto++ and the standard library are not the library\'s own.')

na('C90', 'The intersection found is the true one except with negligible probability',
   'For every pair of data sets of the announced size, the elements found are exactly the common elements, except with a probability that is negligible in the security parameter. '
   'False roots of the resultant polynomial in the value range have that probability at most.',
   'inputs', 'every pair of data sets and every key',
   'The tests run one fixed pair of sets.',
   'eopsiclient.cpp eopsiserver.cpp zzppoly.cpp', [('resultant roots', 'eopsiclient.cpp intersect()')],
   'the probability that a random polynomial has a root in the value range is a quantity over runs, not over paths; the exact algebraic part (common elements are roots, exactly the acceptable roots are reported) is C09 and C17')

na('C91', 'Masked values are indistinguishable from random to the server',
   'Whatever a server sees of two data sets of the same announced size does not let it tell them apart. '
   'The same holds for what an answering client sees.',
   'inputs', 'every pair of data sets', 'A test cannot compare distributions against every distinguisher.',
   'eopsiclient.cpp zzprf.cpp', [('masks', 'eopsiclient.cpp blind()')],
   'computational indistinguishability rests on the hash function being pseudo-random; what is decided from the source is that every value gets its own mask under the right key (C05, C07, C16) and the generator\'s exact construction (C14, C15)')

na('C92', 'The chosen bucket number and load make overflow improbable',
   'With the parameters determined by cherpars, an honest data set overflows a bucket with at most the target probability. '
   'The search for the parameters ends for every input.',
   'inputs', 'every number of elements and target probability', 'The probability is far below what sampling can see.',
   'src/test/cherpars.cpp', [],
   'a numeric tail bound evaluated in floating point; its accuracy and the termination of the search quantify over real-valued iterations no static argument here bounds (the consequences of an overflow are C10)')

na('C93', 'Running time is linear in the number of elements',
   'The time of each protocol step grows linearly with the number of elements for a fixed load. '
   'Threads speed up factorisation without changing its result.',
   'inputs schedules', 'every data size and schedule', 'Timing measurements depend on the machine.',
   'zzppoly.cpp simplebm.cpp', [('threads', 'zzppoly.cpp factorise()')],
   'timing is not a property of the source; the independence of results from the number of threads rests on NTL\'s SetNumThreads')
