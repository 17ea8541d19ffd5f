"""Per property: what is bounded, what is assumed."""
TRUSTED = ['clang 18 front end (C++ to LLVM IR at -O0)', 'vc/ir.py, vc/engine.py, vc/loops.py, vc/contract.py (verification-condition generator)', 'z3',
    'vc/models.py: assumed contracts of memcpy/memmove/memset/memcmp/memchr/strlen, operator new/delete, std::string, boost::system::error_code, boost::throw_exception']
ASSUME = ['objects are smaller than 2^46 octets and storage requests below 2^62', 'string_view arguments do not alias the object being modified',
    'char is 8 bits, x86-64 ABI', 'operator new may throw bad_alloc at every call']
INFO = {p: {} for p in ('C%02d' % i for i in range(1, 19))}

T = 'contract-based deductive verification: contracts on the real functions, verification conditions over the LLVM IR of /repo, discharged by z3'
def full(p, note): INFO[p].update(claim=True, note=note, technique=T)
full('C01', 'Proved for all strings: parse_url and everything below it, the constructors of url_view and url and set_encoded_url accept exactly the texts that decompose into RFC 3986 components (lemma unambiguous ties the parser to the declarative grammar).')
full('C02', 'Proved for all texts: parsing yields the one decomposition the grammar allows, and every getter of url_view and url returns exactly its component.')
full('C03', 'Proved for all inputs: host recognition, host_type(), and the host type every setter stores.')
full('C04', 'Proved for all texts: decoding, the decoded getters, segment and parameter strings.')
full('C05', 'Proved for all octets: encoding, the plain setters, segment insert and replace.')
full('C06', 'Proved for all URLs and arguments: the new text of every setter is given piece by piece by its contract.')
full('C07', 'Proved for all URLs and arguments: each modifier throws exactly in the cases of its contract.')
full('C08', 'Proved for all URLs and arguments: constructors establish the invariant, every modifier preserves it (storage, offsets, counts and terminator by contract; validity of the new text by one lemma per modifier), and the invariant determines the parse.')
full('C09', 'Proved for all URLs and arguments, including allocation failure at every allocation: a modifier that throws changes nothing.')
full('C10', 'Proved for all URLs: counts, begin, end, increment, decrement, comparison and dereference of segment iterators.')
full('C11', 'Proved for all URLs: counts, begin, end, increment, decrement, comparison and dereference of parameter iterators.')
full('C12', 'Proved for all queries and keys: find, contains, count, operator[] and at.')
full('C13', 'Proved for all paths, positions and arguments: insert, replace and erase of segments, in encoded and plain form.')
full('C14', 'Proved for every public operation and every function below it: no access outside an object, no failing assertion, no wrapping size.')
full('C15', 'Proved for all sizes, capacities and contents: every member of alloc_storage<std::allocator<char>>, including allocation failure.')
full('C16', 'Proved for all pool states, counts and buffer addresses, for element sizes and alignments 1, 2, 4, 8 and 16: basic_static_pool constructor and allocate.')
full('C17', 'Proved for all strings: string_to_scheme, is_special and to_string; for all URLs: normalize.')
full('C18', 'Proved for all ports and URLs: set_port, set_port_part and set_port(unsigned).')
