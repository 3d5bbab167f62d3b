"""Per-property data of the checks."""
TECH = 'contract-based deductive verification of the MIR of the real code: per-function contracts, verification conditions by symbolic execution, discharged by ring normal forms, intervals and z3'
TRUSTED = [
    'the MIR that rustc nightly produces for /repo (mirdump prints it; debug assertions and overflow checks on) and the MIR semantics implemented in engine/exec.py',
    'the term normaliser and interval analysis of engine/terms.py, and z3 4.x',
    'contracts of core/alloc/std functions in engine/std.py',
    'p and n are prime; E(F_p) is cyclic of order n; Fermat, Euler criterion',
]
ASSUME = [
    'destructors (Drop) of the types involved have no observable effect',
    'slices are shorter than 2^48 bytes',
]
BASE = 'Every obligation generated from the MIR of the current sources is discharged, for all inputs; trusted: rustc MIR, the engine and z3, contracts of std functions.'
PROPS = {'C%02d' % i: {} for i in range(1, 30)}
def claim(i, note, **k): PROPS[i].update(claimed=True, note=note, **k)
claim('C01', BASE + ' All public Scalar functions plus the private reduction; constants and addition chains are covered by Z/n algebra (Fermat is trusted).')
claim('C02', BASE + ' Field operands range over every limb state that satisfies the magnitude invariant. Field::set_int/from_int are specified for arguments below 2^26 only.')
claim('C03', BASE + ' Points range over every Jacobian representation within the magnitudes the library uses (up to 8); associativity and the group order are trusted mathematics.')
PROPS['C29']['na'] = 'A pre/postcondition contract relates values at call boundaries; it cannot express execution time or cache behaviour, and the compiler may introduce branches after MIR. No contract within reach decides it.'
PTS = ' Key values range over every curve point in coordinates of magnitude up to 2 (what the library itself produces).'
claim('C12', BASE)
claim('C13', BASE + ' The generator is an arbitrary byte stream; the rejection loop is covered by an inferred invariant for any number of iterations (termination depends on the generator).')
claim('C14', BASE + PTS)
claim('C15', BASE + PTS)
claim('C16', BASE)
claim('C20', BASE)
claim('C21', BASE + ' Inputs are byte strings of every length below 2^48. Integers with a negative encoding are specified as errors (the crate rejects them).')
claim('C22', BASE + ' Inputs are byte strings of every length below 2^48.')
claim('C23', BASE)
claim('C25', BASE)
claim('C26', BASE + ' What the optimiser may do with the stores after MIR is outside MIR semantics; the volatile write and the fence are visible in the MIR and executed as such.')
claim('C27', BASE + ' The formatting machinery of core::fmt is trusted: "{:02x}" of a byte prints its two digits.')
claim('C28', BASE + ' base64, the serde data format and Vec are uninterpreted (trusted): encoding then decoding returns the same bytes.')
MODEL = ' Points are modelled by their discrete logarithm in the cyclic group of order n (law proved by C03, cyclicity trusted); '
claim('C04', BASE + MODEL + 'the contents of the generator table are C07.')
claim('C05', BASE + MODEL + 'the contents of the generator table are C07; the wNAF loops are covered by inferred invariants for every scalar.')
claim('C06', BASE + MODEL + 'the windowed recoding is covered by an inferred invariant for every scalar.')
claim('C08', BASE + MODEL + 'ecmult enters by its contract (C05).')
claim('C09', BASE + MODEL + 'ecmult_gen enters by its contract (C04). Assumed: the x coordinate of the nonce point is below n (the code debug-asserts it; no input violating it is known).')
claim('C10', BASE + ' The seed the HMAC-DRBG gets, the candidate each round reads and the retry condition are decided on the signer; seeding, generation and update of crate hmac-drbg are proved to be those of RFC 6979 section 3.2 for HMAC-SHA256 as an uninterpreted function (crates hmac and sha2 are trusted).')
claim('C11', BASE + MODEL + 'ecmult enters by its contract (C05). Assumed: the two cases the code debug-asserts unreachable.')
claim('C17', BASE + MODEL + 'ecmult enters by its contract (C05).')
claim('C18', BASE + MODEL + 'slices of every length, by an inferred loop invariant.')
claim('C19', BASE + MODEL + 'ecmult_const enters by its contract (C06); the digest is uninterpreted.')
claim('C24', BASE + ' Every assertion, overflow check, index and unwrap in the MIR of the public functions under contract is an obligation. Assumed: the listed preconditions (Field::set_int below 2^26, x(kG) below n in signing, SignatureArray::new up to 72).')
claim('C07', BASE + MODEL + 'Static tables: complete evaluation of the 17408 entries rustc puts into the program against curve arithmetic in engine/oracle.py. Run-time construction: both new_boxed functions are executed at their actual sizes under the point and field contracts, the batch inversion and the table helpers inlined.')
