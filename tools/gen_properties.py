#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single place where the property texts are kept)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state: d['anchors']['state'] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if observe: d['anchors']['observe_at'] = list(observe)
    d['anchors']['hook_needed'] = None
    P.append(d)

HB='include/eni/adt/bits/HashBase.tcc'; HT='include/eni/adt/bits/HashTable.tcc'; HI='include/eni/adt/bits/HashIterator.tcc'
prop('C01','Hash table behaves as a map under every operation history',
 'After any history of insert, erase, clear, rehash, lookup and assignment on a hash table, with any distribution of hash values, a key is found (with the value last stored for it, through the mutable and the constant lookup alike, and with count 1) exactly when it was inserted and not erased since, and the number of entries equals the number of such keys. Insert reports whether the key was already present and then returns the existing entry unchanged; erase removes exactly the given key and reports whether it was there. The entry of a key stays at the same address until that key is erased or the table is cleared, however often the table grows.',
 ['histories','inputs'],'all operation histories over all keys, hash functions (including fully colliding and zero hashes) and initial sizes',
 'Unit tests run a handful of ascending integer keys; collision chains through tombstones, wrap-around and same-size rehash need long specific histories.',
 ['include/eni/adt/HashBase.h','include/eni/adt/HashTable.h',HB,HT,'include/eni/adt/StringHashTable.h'],
 [('linear probing with tombstones',HB+' lookupBucketFor/findKey'),('insert/erase bookkeeping',HT+' insert/erase'),('rehash moves every entry',HB+' doRehash')],
 [('bucket array','slots: empty, tombstone or entry with cached hash',HB),('entry/tombstone counters','drive growth and empty()',HB)],
 ['insert/find/erase/count results','iteration','entry addresses'])
prop('C02','Hash table operations always terminate and keep the table sparse',
 'Every hash table operation terminates for every history, every initial size and every explicit rehash size, including 0 and sizes smaller than the content. After every insert or erase that changes the table at most three quarters of the buckets hold entries, at least one eighth of the buckets are free of entries and erased markers, and the reported counts of buckets, entries and erased markers and the load factor describe the table. Growing follows the fixed sequence of sizes, never loses an entry, and an explicit rehash yields at least one more bucket than there are entries and no erased markers.',
 ['histories','inputs'],'all histories, hash distributions, initial sizes and rehash sizes, up to hundreds of thousands of entries',
 'Tests pin three bucket counts (17, 37, 197); the load and tombstone conditions are arithmetic over all sizes of the ladder and all mixes of erased and live slots, and a wrong one shows as an endless probe only in rare states.',
 ['include/eni/adt/HashBase.h',HB,HT],
 [('size ladder',HB+' compute_bucket_size'),('load factor and tombstone limits',HB+' mayRehash'),('explicit rehash',HT+' rehash')],
 (),['numOfBuckets/numOfEntries/numOfTombstones/load_factor'])
prop('C03','Hash iteration is complete, duplicate-free and deterministic',
 'Iterating a hash table visits every entry exactly once and nothing else, for constant and mutable iterators, pre- and post-increment, at every table state including ones with erased slots and after wrap-around. The order depends only on the history of operations and the hash values of the keys (ascending bucket order after linear probing), never on addresses or the environment, so equal histories print equal results on every node. Iterating by key visits every entry whose full hash equals that of the key exactly once, starting with the key itself, and is empty when the key is absent; advancing an entry iterator past the end, or dereferencing an end iterator, raises the empty-iterator error. An iterator by key at its end stays there when advanced.',
 ['histories','inputs'],'all table states reachable by any history, all hash distributions',
 'Tests iterate a few tables without deletions or collisions; order across growth and tombstone reuse is a function of the whole history.',
 ['include/eni/adt/HashIterator.h',HI,HT],
 [('entry iterator',HI+' EntryIterBase::advance'),('chain iterator',HI+' ChainIterBase'),('begin()/find()',HT)])
prop('C04','Hash table copies are independent and release every entry once',
 'Copying or copy-assigning a hash table or string map yields a table with equal content and equal iteration order that is independent of the original: no later operation on one is visible in the other, self-assignment changes nothing, and copying from or assigning to cleared, moved-from or never-used tables works. Moving transfers the content and leaves the source usable. Over any history each entry is created and destroyed exactly once and all memory is released when the tables are gone.',
 ['histories'],'all interleavings of construct, copy, move, assign, self-assign, clear, insert, erase and destroy over several tables',
 'Tests copy one small populated table; self-assignment, empty/uninitialised sources and entry ownership after each are not exercised, and leaks or double destruction do not fail a test.',
 ['include/eni/adt/HashBase.h',HB,HT,'include/eni/adt/StringMap.h'],
 [('bucket copy then entry clone',HT+' copy constructor/assignment'),('pointer steal on move',HB+' move constructor/assignment'),('clear destroys entries',HT+' clear')])
prop('C05','String maps work for every key string',
 'A string map treats keys as exact byte strings of any length and content (empty, embedded NUL, bytes above 127, longer than 64 KiB): distinct byte strings are distinct keys even when their hashes collide, and iteration returns each key byte for byte. Checked access to a missing key raises the invalid-key error and, on constant and mutable maps alike, does not change the map; indexed access to a missing key inserts a value-initialised element and to a present key returns it. size() always equals the number of distinct keys.',
 ['inputs','histories'],'all byte strings as keys, all histories of access, insertion and erasure, all value types',
 'Tests use a few short ASCII keys; length truncation, NUL handling and hash collisions need special keys.',
 ['include/eni/adt/StringMap.h','include/eni/adt/StringHashTable.h',HT],
 [('key bytes stored behind the entry','include/eni/adt/StringHashTable.h'),('at()/operator[]','include/eni/adt/StringMap.h')])
VT='include/eni/adt/bits/Vector.tcc'
prop('C06','Vector behaves as a sequence under every operation history',
 'After any history of push, pop, emplace, insert (one, many, range, list; by index or by iterator), erase (one or a range, including the last element), resize, assign, swap and clear, the vector contains exactly the elements an abstract sequence would, in order, and size, emptiness, front, back, indexed access, data and iteration agree with it. Inserting and erasing by iterator return the position of the first inserted element or of the element after the erased ones. Growing by resize appends copies of the given value (a value-initialised one by default) and shrinking keeps the prefix.',
 ['histories','inputs'],'all operation histories, positions, counts and element types without resources of their own (plain data and JSON values)',
 'Tests cover single calls on vectors of three or four elements; off-by-one shifts depend on position, count and capacity together.',
 ['include/eni/adt/Vector.h',VT],
 [('shift by copy/copy_backward',VT+' insert/erase'),('fill on growth',VT+' resize')])
prop('C07','Vector rejects bad positions and sizes without changing anything',
 'Checked access at or past the end, insertion past the end, erasure of positions or ranges that are empty, reversed or reach past the end raise the index error; reserving, resizing or inserting beyond the maximum size raises the size error, and a request that memory cannot satisfy raises the no-memory error. In each case the vector keeps its content, size and usability.',
 ['inputs','histories'],'all index, count and range arguments over the full unsigned range, at every vector state',
 'Tests try one bad index; overflow of index plus count and of bytes needs extreme arguments, and the state after the exception is not inspected.',
 ['include/eni/adt/Vector.h',VT],
 [('range checks',VT+' at/insert/erase'),('size limits',VT+' reserve/max_size')])
prop('C08','Vector storage: independent copies, stable references, safe aliasing',
 'Copies and assignments (also self-assignment and from lists or standard vectors) produce equal and independent vectors, and swap exchanges contents exactly. The capacity never is less than the size or than what was reserved, and while the size stays within a reserved capacity elements stay at their addresses. Passing an element of the vector itself to push, emplace, insert, resize or assign stores the value that element had before the call.',
 ['histories'],'all histories over several vectors with reservations and self-referencing arguments',
 'Aliasing and reallocation bugs depend on whether the allocator moves the block; tests never pass an element of the vector to itself.',
 ['include/eni/adt/Vector.h',VT],
 [('doubling realloc',VT+' reserve'),('deep copy',VT+' constructors and assign')])
prop('C09','Random-access iterators obey pointer arithmetic laws',
 'Iterators over a vector behave as positions: increment, decrement (pre and post), addition, subtraction, compound forms, indexing, difference and the six comparisons agree with integer arithmetic on positions for mutable and constant iterators, assignment and copies are independent positions, and dereferencing yields the element at that position. Standard algorithms over begin() and end() see exactly the sequence.',
 ['inputs','histories'],'all pairs of positions and all sequences of iterator operations',
 'Tests exercise each operator once at one position; sign and pre/post confusions show at other positions.',
 ['include/eni/adt/PointerIterator.h','include/eni/adt/bits/PointerIterator.tcc'],
 [('pointer wrapper','include/eni/adt/bits/PointerIterator.tcc')])
prop('C10','String hashes equal their definitions; substring filter is sound',
 'Each named string hash (RS, JS, PJW, ELF, BKDR, SDBM, DJB, DEK, BP, FNV, AP) is the fixed 32-bit function of all bytes of the string given by its recurrence, with bytes taken as signed and arithmetic modulo 2^32, for strings of every length and content. The characteristic-string filter never answers "no" for a string that really is a substring of the other; it says no exactly when the candidate has a letter (in either case), a digit or an underscore the other lacks, or more dots (counted up to 15). Hash values depend on nothing but the string.',
 ['inputs'],'all byte strings; all pairs (substring, string)',
 'Tests hash one or two strings per function; consensus needs the same value for every string, including high bytes, NUL and long strings.',
 ['include/eni/adt/StringHasher.h'],
 [('recurrences','include/eni/adt/StringHasher.h'),('characteristic filter','include/eni/adt/StringHasher.h may_include')])
PR='include/eni/json/Parser.h'; CB='include/eni/json/Callbacks.h'
prop('C11','The JSON parser accepts exactly the supported grammar',
 'The parser succeeds exactly when the text starts (after JSON white space) with one complete value of the supported grammar: true, false, integers -?(0|[1-9][0-9]*), strings with the JSON escapes and four-digit \\u codes, arrays and objects with string keys; null, fractions at the point where more input is required, missing or extra separators, unterminated texts and the empty text fail. What follows the first complete value is not looked at. The verdict depends on the text only (not on where it is in memory), the parser never reads outside the text, and it terminates on every text.',
 ['inputs'],'all byte strings',
 'Tests parse a dozen hand-written texts; the verdict at every prefix, after every escape and at every end-of-input position needs systematic enumeration.',
 [PR],[('recursive descent',PR+' parse_*'),('bounded scanning',PR+' have/expect')])
prop('C12','Parsed JSON values are exactly what the text says',
 'A parsed value has the type, structure and content of the text: integers with magnitude below 2^256 exactly, strings byte for byte with escapes decoded (\\u00XX to the byte XX), array elements in order, and objects with exactly the distinct keys of the text, each mapped to the value of its last occurrence at its own nesting level. White space between tokens never changes the result. Nesting and size do not matter.',
 ['inputs'],'all accepted texts: nesting shapes, key duplication, escapes, numbers up to 256 bits',
 'Tests check a few fixed documents; nesting, duplicate keys, escapes and big integers combine freely.',
 [PR,CB,'lib/json/Value.cpp','include/eni/adt/StringMap.h'],
 [('event callbacks with a value stack',CB),('escape decoding',PR+' parse_escape/parse_codepoint')])
prop('C13','Printed JSON is deterministic and parses back to the same value',
 'Printing a JSON value gives text determined by the value alone: decimal integers, true/false, strings with quote, backslash and control characters escaped and all other bytes verbatim, arrays without spaces and objects in table iteration order, with quoted and escaped keys. Parsing the printed text yields an equal value, and printing that again is stable as a value. This holds for every value without undefined parts that can be built through the API or parsed; undefined parts print as nothing.',
 ['inputs'],'all JSON values: every byte in strings and keys, every nesting, 256-bit integers',
 'Tests compare a few printed documents; escapes per byte value and nested combinations are not enumerated.',
 ['lib/json/Value.cpp','lib/json/Object.cpp','lib/json/Array.cpp'],
 [('escape on output','lib/json/Value.cpp print'),('member/element separators','lib/json/Object.cpp, lib/json/Array.cpp')])
prop('C14','JSON values have value semantics',
 'Values own their content: after any history of constructing, copying, assigning (also to itself or from a part of itself), moving, and editing arrays and objects through references, every value still equals its abstract content, changes to one never show in another, and a moved-from or default value is undefined. The type queries are mutually exclusive and agree with the content. Reading by key or index returns the element, the undefined null value for a missing key or a value of another type, and the index error for an index out of range, and never changes the value; delegating into a value that is already defined raises the delegation error and changes nothing.',
 ['histories'],'all histories of value operations over several values and nested containers',
 'Tests build values once and read them; sharing between copies, partial self-assignment and read-only access with side effects need operation sequences.',
 ['include/eni/json/Value.h','lib/json/Value.cpp','lib/json/Array.cpp','lib/json/Object.cpp','lib/json/Notation.cpp'],
 [('deep copy per type','lib/json/Value.cpp'),('type tag','lib/json/Notation.cpp')])
prop('C15','ENI integers are exact to their width and print in decimal',
 'The ENI unsigned types hold exactly 64, 128, 160 and 256 bits with wrap-around, and the signed type holds every integer of magnitude below 2^256; text conversion yields the canonical decimal text of exactly the value held, and booleans convert to true and false. Reading an integer from JSON and printing it gives back its canonical decimal text.',
 ['inputs'],'all values of each width, in particular around powers of two and limb boundaries',
 'Tests convert one or two values per type; width errors appear only at boundaries.',
 ['include/eni/eni_types.h','lib/eni_types.cpp',CB],
 [('multiprecision type aliases','include/eni/eni_types.h'),('text conversion','lib/eni_types.cpp')])
EN='include/eni/eni.h'
prop('C16','Native operation life cycle: validate once, then gas or run',
 'For every operation object the operation\'s own argument check is called at most once, with exactly the parsed argument array, before anything else and with its verdict remembered. When it fails, the gas is 1500 and running yields no result and never calls the gas or run code; when it succeeds, gas is exactly what the operation computes, any number of times, and running returns the JSON text of the array of produced values when the operation succeeds and no result otherwise. The C entry points give the same answers in buffers that the caller owns and can free, and destroy the operation object.',
 ['histories','inputs'],'all operations (any check verdict, gas value, run verdict and result values) and all call orders',
 'Tests use well-behaved sample operations in one call order.',
 [EN,'lib/eni.cpp'],
 [('check() memoises the verdict',EN),('C interface macros',EN)],
 [('parsed/valid flags','validation done, verdict',EN)])
prop('C17','No argument text can make an operation misbehave',
 'For every operation shipped with the library and every argument text, the outcome is one of: the process exits with status 87 when the text is not parseable JSON; gas 1500 and no result when the text is not an array or an argument is missing, of the wrong type or invalid; otherwise the defined gas and either a JSON array result or no result. It never crashes, never hangs and never reads or writes memory it does not own. Extra arguments are ignored.',
 ['inputs'],'all argument texts: every JSON value shape in every argument position, for each operation',
 'Tests call each operation with valid arguments and one or two invalid ones; wrong types in each position are not enumerated.',
 [EN,'lib/eni.cpp','tools/eni_crypto/eni_crypto.cpp','tools/eni_scrypt/eni_scrypt.cpp','examples/eni/reverse/eni_reverse.cpp','examples/eni/json/eni_json.cpp'],
 [('exit on malformed text','lib/eni.cpp'),('argument validation','parse() of each operation')])
prop('C18','Operations are deterministic functions of their arguments',
 'The gas and the result of an operation depend only on the operation name and the argument text: repeating a call, interleaving it with any other calls, calling it from several threads, or running it in another process with other memory layout, environment or locale gives byte-for-byte the same gas and result (consensus).',
 ['histories','schedules','configurations'],'all call histories, interleavings, threads and process environments',
 'Tests call once in one environment; hidden state shows only across calls, and address dependence only across processes.',
 [EN,'lib/eni.cpp',PR,CB,'tools/eni_crypto/eni_crypto.cpp','tools/eni_scrypt/eni_scrypt.cpp','tools/eni_scrypt/scrypt.cpp'],
 [('a fresh operation object per call',EN),('no global mutable state','lib')])
prop('C19','The scrypt operation hashes exactly the decoded input',
 'For a string of at most 160 hexadecimal digits in any letter case the scrypt operation charges 10 gas per byte (rounding a half byte up) and returns the 64-digit lower-case hexadecimal scrypt hash (N=1024, r=1, p=1, 32 bytes, input as password and salt) of the digits decoded as bytes, an odd digit string being completed by a leading zero digit and the input by zero bytes on the right to 80 bytes. Longer strings and strings with any other character are rejected (gas 1500, no result). Letter case never changes the result.',
 ['inputs'],'all strings: every length 0..161 and more, every character, every letter case',
 'Tests hash two block headers; odd lengths, short inputs, bytes above 127 and letter case mixes are not covered.',
 ['tools/eni_scrypt/eni_scrypt.cpp','tools/eni_scrypt/scrypt.cpp'],
 [('validation and hex decoding','tools/eni_scrypt/eni_scrypt.cpp'),('hash','tools/eni_scrypt/scrypt.cpp')])
prop('C20','The scrypt and PBKDF2 primitives compute the standard functions',
 'The key derivation function equals PBKDF2-HMAC-SHA256 for every password length (including longer than one hash block), salt length, iteration count and output length, writing exactly the requested number of bytes. The scrypt function equals standard scrypt with N=1024, r=1, p=1 on 80-byte inputs used as password and salt with 32 bytes of output, for every input and every alignment of input, output and scratch memory.',
 ['inputs'],'all passwords, salts, iteration counts and output lengths; all 80-byte inputs',
 'Tests hold two known answers; block-size boundaries and partial output blocks are separate code paths.',
 ['tools/eni_scrypt/scrypt.cpp','tools/eni_scrypt/scrypt.h'],
 [('HMAC/PBKDF2','tools/eni_scrypt/scrypt.cpp'),('Salsa20/8 mixing','tools/eni_scrypt/scrypt.cpp xor_salsa8')])
CR='tools/eni_crypto/eni_crypto.cpp'
prop('C21','RSA operations are unpadded RSA on zero-filled blocks and round-trip',
 'Encrypting a message of at most the key size gives the raw RSA power of the message filled with zero bytes on the right to the key size, as hexadecimal text of exactly two digits per key byte in the operation, and decrypting with the matching key gives back the message without trailing zero bytes, for public-encrypt/private-decrypt and private-encrypt/public-decrypt. Messages that are too long or numerically not below the modulus, ciphertexts that are longer than the key or not below the modulus, and unreadable keys are refused without a result; a shorter non-empty ciphertext counts as the number it writes. The gas of both operations is 10 per key byte once the arguments are valid, and 1500 otherwise.',
 ['inputs'],'all keys, all messages (any bytes, any length up to and past the key size), all ciphertexts',
 'Tests encrypt one short ASCII message with one key; full-length messages, NUL bytes, leading zeros in ciphertexts and refusals are not covered.',
 [CR,'tools/eni_crypto/eni_crypto.h'],
 [('zero fill and raw RSA',CR+' pub_encrypt/priv_encrypt'),('block to message',CR+' pub_decrypt/priv_decrypt'),('key parsing',CR+' create_pubkey/create_privkey')])
prop('C22','Hexadecimal coding is exact and strict',
 'Encoding any byte string gives two lower-case digits per byte in order, and decoding gives back exactly the bytes for lower- and upper-case digits. Decoding refuses odd lengths and any character that is not a hexadecimal digit. Decoding an encoding is the identity for every byte string, the empty one included.',
 ['inputs'],'all byte strings and all candidate digit strings',
 'Tests code one string each way.',
 [CR],[('str2hex/hex2str',CR)])
prop('C23','Command-line tools parse arguments and report status exactly',
 'eni_run and eni_gas take the first three positional arguments as library, operation and JSON text, ignore arguments starting with a dash before a lone double dash, and treat everything after it as positional; with fewer or more than three positional arguments they print the usage to standard error, nothing to standard output, and exit with 1 and 2 respectively. Otherwise they exit with 3 when the library cannot be loaded, 4 when the operation (run or gas entry point) is not found, 5 when the operation yields no result, and 0 after printing the result or the gas as one line. The printed text is exactly what the operation returned.',
 ['inputs','configurations'],'all argument vectors; all library/operation outcomes',
 'No existing test runs the tools with malformed command lines.',
 ['tools/eni_cli/optParser.cpp','tools/eni_cli/eni_run.cpp','tools/eni_cli/eni_gas.cpp','tools/eni_cli/ceni.h'],
 [('option parser state machine','tools/eni_cli/optParser.cpp'),('exit statuses','tools/eni_cli/ceni.h')])
prop('C24','Every error is of the documented kind with its own message',
 'Each diagnostic has its fixed message, obtainable from the exception text, and is catchable as the documented standard exception class (no-memory as bad allocation, delegation and empty iterator as logic error, missing key and bad index as out of range, bad size as length error) and as its own diagnostic type. Exceptions can be copied, rethrown and caught by base without losing the message. Messages of different diagnostics differ.',
 ['inputs','histories'],'all diagnostics, all exception categories, all throw sites reached by operation histories',
 'Tests check two of the diagnostics.',
 ['include/eni/diagnostic/Exception.h','include/eni/diagnostic/DiagList.inc','lib/diagnostic/Exception.cpp'],
 [('diagnostic table','include/eni/diagnostic/DiagList.inc'),('exception templates','include/eni/diagnostic/Exception.h')])
prop('C25','The json example operation answers structural queries exactly',
 'Given a JSON text and a range in it, the json operation returns the decoded string, the positions of all elements of an array, the position of one element, or the position of the value of a key (zero when absent), each position being that of the exact source text of the element as 16 hexadecimal digits, independent of nesting inside the elements. The gas is 10 per byte of the answer. Bad ranges, indices and arguments are refused (gas 1500, no result).',
 ['inputs'],'all JSON documents, ranges, indices and keys',
 'No unit test; the consensus test has a few fixed queries.',
 ['examples/eni/json/eni_json.cpp',EN],
 [('token scan that skips nested tokens','examples/eni/json/eni_json.cpp')])
prop('C26','The reverse example operation reverses any byte string end to end',
 'For every argument string the reverse operation returns a JSON array with one string that is the byte-wise reversal of the decoded argument, and charges 10 gas per byte. The answer is itself valid JSON for every byte content, and applying the operation twice gives the original string back.',
 ['inputs'],'all strings, with every escape and byte value',
 'One fixed string is tested.',
 ['examples/eni/reverse/eni_reverse.cpp',EN,PR,'lib/json/Value.cpp'],
 [('parse, reverse, print','examples/eni/reverse/eni_reverse.cpp')])
prop('C27','Allocators give room for what was asked and nothing less',
 'A request for n objects gives storage of its own for n objects, disjoint from every block still held, or no storage at all when memory cannot hold that many, also when their size in bytes cannot be written down; max_size() is the largest number for which it can. Constructing gives a value-initialised object or a copy of exactly the given one, destroying ends that object and no other, and releasing (through any allocator of the type) leaves all other blocks as they are. The address of an object is where it lies. The untyped allocator deals in bytes, and the allocator of string entries gives an entry room for exactly its key, of any length and content.',
 ['histories','inputs'],'all histories of requests, constructions, destructions and releases over several blocks, all sizes and all key lengths',
 'The allocator has no unit test; only single small entries are allocated by the tests of the containers.',
 ['include/eni/support/MallocAllocator.h','include/eni/adt/StringHashTable.h'],
 [('typed and untyped allocator','include/eni/support/MallocAllocator.h'),('entries with the key behind them','include/eni/adt/StringHashTable.h')])
prop('C28','Threads with objects of their own do not disturb each other',
 'Several threads may use the library at the same time as long as no object is used by two of them: every container, map, vector, iterator, string hash, number, JSON text and value, exception, allocator and operation answers each thread exactly as it would answer a program with that thread alone.',
 ['schedules','histories'],'all schedules of several threads, each with any history of calls on objects of its own',
 'No test has a second thread; a buffer or a cache shared by all calls is invisible in one.',
 ['include/eni/adt/HashTable.h','include/eni/adt/StringMap.h','include/eni/adt/Vector.h','include/eni/adt/StringHasher.h','include/eni/json/Parser.h','lib/json/Value.cpp','lib/eni_types.cpp','lib/eni.cpp','tools/eni_crypto/eni_crypto.cpp','tools/eni_scrypt/scrypt.cpp'],
 [('no state outside of objects','lib'),('working storage on the stack or in the object','include/eni')])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for p in P: f.write(json.dumps(p) + '\n')
print(len(P))
