#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the wording lives in one readable place)."""
import json, os
Z="include/HEAAN/arith/Z_Q.h"; RQ="include/HEAAN/arith/R_Q.h"; RQS="include/HEAAN/arith/R_Q_square.h"
CV="include/HEAAN/arith/conv.h"; CVV="include/HEAAN/arith/conv/conv.h"; CRT="include/HEAAN/arith/conv/crt.h"
NTT="include/HEAAN/arith/conv/ntt.h"; MOD="include/HEAAN/arith/conv/mod.h"; CORE="include/HEAAN/core.h"
LT="include/HEAAN/linear_transform.h"; BS="include/HEAAN/bootstrap.h"; PL="include/HEAAN/poly.h"
EN="include/HEAAN/endecode.h"; MX="include/HEAAN/matrix/matrix.h"; DFT="include/HEAAN/matrix/DFT.h"
MSG="include/impl/message.h"; SP="include/impl/simple_plaintext.h"; PT="include/impl/plaintext.h"; U="include/util/util.h"
P=[]
def prop(id,title,statement,over,text,why,files,mech,observe):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=None)))
prop("C01","Wide-integer arithmetic is exact modulo 2^LOGQ",
 "Addition, subtraction, negation and multiplication (by a wide integer and by a 64-bit word) of integers modulo 2^LOGQ return the exact result reduced modulo 2^LOGQ, for every pair of operands and every bit width, also when an operand is used with itself. The result is always stored in canonical form (no bits at or above position LOGQ), and the operand that is not assigned to is left unchanged. The same holds coefficient-wise for polynomials and pairs of polynomials.",
 ["inputs","configurations"],"all limb contents, all widths LOGQ (multiple of 64 or not, one limb or many), aliased and distinct operands",
 "The tests only see random ciphertext data: a carry that must ripple through a saturated limb, a width that is a multiple of 64 or an aliased operand has probability about 2^-64 or is never instantiated.",
 [Z,RQ,RQS],[("carry propagation in operator+=, complement in negate, schoolbook operator*=",Z)],["Z_Q operators","R_Q operators","R_Q_square operators"])
prop("C02","Rescaling, resizing and sign of wide integers are exact",
 "Shifting a wide integer down from LOGQ to a smaller LOGQ' divides it by 2^(LOGQ-LOGQ') with rounding to the nearest integer (ties upward) modulo 2^LOGQ', and shifting up multiplies it exactly. Resizing preserves the signed (centered) value when the target is wider and reduces it modulo the target otherwise; the sign test and the conversion to floating point agree with the centered value for every content.",
 ["inputs","configurations"],"all contents and all pairs of source and target widths, including equal widths, shifts by multiples of 64 and shifts crossing limbs",
 "Each test instantiates a handful of width pairs with random contents; limb-boundary widths, carry on rounding and the extreme values are never reached.",
 [Z],[("shift_right, shift_left, resize, is_bigger_than_halfQ, operator double",Z)],["shift_right","shift_left","resize","is_bigger_than_halfQ","operator double"])
prop("C03","Word-size modular arithmetic is exact for all operands",
 "The 64-bit modular helpers compute exact residues: reduction of a two-word number, addition, subtraction and multiplication modulo any q at least 2, powers with any exponent and inverses modulo a prime, always returning a value in [0,q), with no intermediate overflow for any 64-bit operands (reduced or not). The two-word product of two words is exact.",
 ["inputs"],"all 64-bit operands and moduli (primes for inversion)",
 "mod_test and mul_test print one fixed example each.",
 [MOD,Z],[("mod, mul_, add_mod, sub_mod, mul_mod, pow_mod, inv_mod",MOD),("mul",Z)],["mod","mul","mul_","add_mod","sub_mod","mul_mod","pow_mod","inv_mod"])
prop("C04","CRT decomposition and reconstruction are exact",
 "Decomposing a wide integer into residues gives, for each prime, a residue congruent to its centered (signed) value; reconstructing from residues returns the unique centered integer with those residues, reduced modulo 2^LOGQ, whatever representative of each residue is supplied. Consequently reconstruction inverts decomposition for every wide integer that fits in the product of the primes.",
 ["inputs","configurations"],"all wide integers, all residue vectors, all sets of distinct primes and all widths",
 "crt_test decomposes and recombines a single fixed value; sign handling at the midpoint, values needing several modular corrections and unreduced residues are never exercised.",
 [CRT],[("CRT constructor, crt, icrt",CRT)],["CRT::crt","CRT::icrt"])
prop("C05","The number-theoretic transform is an exact evaluation map",
 "For every supported length N and every prime q congruent to 1 modulo 2N, the forward transform evaluates the input polynomial at the N distinct roots of X^N+1 modulo q, the inverse transform undoes it exactly, and multiplying two transforms pointwise and inverting gives the negacyclic product modulo q. Outputs are fully reduced for every input.",
 ["inputs","configurations"],"all input vectors, lengths N and NTT-friendly primes q",
 "ntt_test inverts one vector at one length with one prime and prints the first entries only.",
 [NTT,U],[("NTT constructor (root tables), ntt, intt, findPrimitiveRoot, bitReverse",NTT)],["NTT::ntt","NTT::intt"])
prop("C06","Polynomial products are exact negacyclic products",
 "Every polynomial multiplication (integer by integer, ternary by wide, wide by wide, and pair by polynomial) returns exactly the product in Z[X]/(X^N+1) of the centered operands reduced modulo 2^LOGQ. The wide product is exact for all coefficients and every supported width and degree because the product of the primes used exceeds twice the largest possible coefficient and the primes are distinct and NTT-friendly.",
 ["inputs","configurations"],"all polynomial contents, all N and LOGQ, repeated calls",
 "conv_test and ctxt_conv_test multiply one pair at one size; overflow of the residue number system needs extreme coefficients at large N and never shows up on random data.",
 [CV,CVV,RQS],[("schoolbook loops and sign flips; prime table and number of primes L",CV),("icrt_polynomial, pointwise product, crt_polynomial",CVV)],["conv","R_Q_square::operator*=(R_Q)"])
prop("C07","Decryption inverts encryption up to bounded noise",
 "For every ternary secret key, message polynomial and width, decrypting a fresh encryption returns the message plus an error whose coefficients are at most 8 in absolute value; the second ciphertext component is a fresh mask covering all LOGQ bits of every coefficient and does not depend on the message or the key. Key generation returns a ternary vector with exactly h non-zero entries.",
 ["inputs","configurations","histories"],"all random draws, keys, messages, LOGQ, N and h",
 "Tests only print decoded slots with loose tolerances; a mask with missing high bits, a reused mask, biased noise or a key of wrong weight leaves all of them passing.",
 [CORE,U],[("keygen, enc, dec",CORE),("rand_uint64",U)],["HEAAN::keygen","HEAAN::enc","HEAAN::dec"])
prop("C08","Relinearised multiplication multiplies the encrypted messages",
 "For all ciphertexts ct1, ct2 under a key s and an evaluation key made from s^2, the product ciphertext decrypts under s to the negacyclic product of the two decryptions, modulo 2^LOGQ, up to an error bounded by N(8+1/2)+1 in every coefficient. This holds for every width and also when both arguments are the same ciphertext.",
 ["inputs","configurations"],"all ciphertexts (also not freshly encrypted), keys, masks and noise values, LOGQ and N",
 "Multiplication is only exercised inside EvalMod/bootstrap tests on one random input with coarse printed precision.",
 [CORE,CV],[("Mul: tensor product, relinearisation with 2*LOGQ-bit key, RS",CORE)],["Mul"])
prop("C09","Rescaling and modulus raising preserve the encrypted message",
 "Rescaling a ciphertext divides the decrypted polynomial by the power of two dropped, up to an error of at most (1+|s|_1)/2 per coefficient, and reduces its modulus accordingly. Raising the modulus yields a ciphertext whose decryption is congruent to the original modulo the old modulus and is at most (1+|s|_1)/2 times the old modulus in absolute value.",
 ["inputs","configurations"],"all ciphertexts, ternary keys and pairs of widths",
 "Tests observe rescaling and modulus raising only through decoded slots at a few widths.",
 [CORE,BS,RQS],[("RS",CORE),("mod_raise, resize",BS)],["RS","mod_raise","resize(R_Q_square)"])
prop("C10","Rotations and conjugation act as ring automorphisms",
 "Rotating a polynomial, key or ciphertext by any amount r in [0,N/2) applies X -> X^(5^r), and conjugation applies X -> X^-1, on every coefficient; all forms agree with each other. A rotated or conjugated ciphertext, key-switched with the matching key, decrypts under the original key to the rotated or conjugated message, so the decoded slots are shifted by r positions or complex-conjugated.",
 ["inputs","configurations"],"all polynomials, keys, N, rotation amounts",
 "Tests only use the offsets that occur in one FFT factorisation, on one message.",
 [LT,SP],[("rot, rot_ct, conj",LT),("rotate, rotate_once",SP)],["rot","rot_ct","conj"])
prop("C11","The FFT pair is the canonical embedding and its inverse",
 "For every size, the fast transform maps real coefficients to the values of the polynomial at the roots exp(i*pi*5^j/N) in slot order, equals the direct O(N^2) transform, and the fast inverse is its exact inverse (up to floating-point rounding); the same holds on every call, not just the first. The sparse factors multiply to the (bit-reversed) embedding matrix.",
 ["inputs","configurations","histories"],"all coefficient/slot vectors, all LOGN, all call sequences",
 "dft_test compares one message at one size.",
 [DFT,U],[("dft, idft, splitU0NR, fftNR, ifftNR, fft, ifft",DFT),("bitReverse",U)],["fft","ifft","dft","idft"])
prop("C12","Encoding and decoding are mutually inverse at any scale",
 "Encoding rounds Delta times the inverse embedding to the nearest integer coefficient-wise (negative values included); decoding a wide polynomial returns its centered coefficients divided by Delta mapped through the embedding, for coefficients of any size, and the logarithmic variant agrees with it for any power-of-two scale. So decode(encode(z)) is z up to rounding of at most half a unit per coefficient.",
 ["inputs","configurations"],"all messages with coefficients below 2^63/Delta, all polynomials, scales, LOGQ, LOGN",
 "Tests encode one fixed message at scale 2^50 or so; negative, multi-limb and limb-boundary coefficients are rare or absent.",
 [EN,PT,SP,Z],[("encode, decode, decode_log",EN),("max_valid_digit",Z)],["encode","decode","decode_log"])
prop("C13","Sparse-diagonal matrices implement matrix algebra",
 "A sparse-diagonal matrix behaves as the full matrix it denotes: element access, transpose, negation, scaling, addition and subtraction, product of two such (real or complex) matrices and matrix-vector product agree with dense linear algebra for all entries, sizes and diagonal offsets. Products keep the real and imaginary parts on the same offsets and mark a diagonal as unused only if it is zero.",
 ["inputs","configurations"],"all entries, offsets in [0,N), numbers of diagonals and sizes",
 "Tests only use the FFT factors (offsets 0, M, N/2-M) and compare a few printed entries.",
 [MX,MSG],[("SparseDiagonal methods, matrix_vector_product, MatMul, RemoveClutter",MX)],["SparseDiagonal","MatMul","matrix_vector_product","RemoveClutter"])
prop("C14","Homomorphic linear transforms compute the matrix product",
 "Applying a complex sparse-diagonal matrix to a ciphertext yields a ciphertext whose decryption, decoded, is the matrix times the decoded input with the scale multiplied by 2^LOGDELTA, up to encoding rounding and key-switching noise; serial application composes the matrices in order, and every grouping factor gives the same transform with the scale of its number of groups. Diagonals marked unused are skipped, and unused noise keys never influence the result.",
 ["inputs","configurations"],"all matrices and ciphertexts, all offsets, LOGN and grouping factors 1..4",
 "matmul_test prints one message for two grouping factors.",
 [LT,MX,EN],[("linear_transform, serial_linear_transform, grouped*_serial_linear_transform",LT)],["linear_transform","serial_linear_transform","grouped_serial_linear_transform"])
prop("C15","CoeffToSlot and SlotToCoeff move coefficients to slots and back",
 "CoeffToSlot turns a ciphertext of m into two ciphertexts whose slots hold the (bit-reversed) first and second half of the coefficients of m, at the declared scale, with zero imaginary part; SlotToCoeff is the inverse. Both hold for every ciphertext, grouping factor and ring size, and on every call.",
 ["inputs","configurations","histories"],"all ciphertexts, LOGN, grouping factors, call sequences",
 "The tests check one message at one size and print a few slots.",
 [BS,LT,DFT],[("CoeffToSlot, SlotToCoeff and their cached matrices",BS)],["CoeffToSlot","SlotToCoeff"])
prop("C16","Homomorphic polynomial evaluation evaluates the given polynomial",
 "For each supported degree, evaluating coefficients u on a ciphertext of x gives a ciphertext of the polynomial those coefficients denote at x, at the same scale, with the declared modulus consumption; positive, zero and negative coefficients are all handled. Converting Chebyshev coefficients to u preserves the polynomial for every coefficient vector.",
 ["inputs","configurations"],"all coefficient vectors and inputs in [-1,1], all degrees provided, widths",
 "Only the degree-31 evaluation with one fixed coefficient table is ever run by a test.",
 [PL],[("eval_poly_deg3/7/15/31/63/127, convert_frc_tou",PL)],["eval_poly_deg*","convert_frc_tou"])
prop("C17","EvalMod evaluates the scaled sine over its whole input range",
 "For every input value t with |t| at most K periods, EvalMod returns, in the coefficient slot-wise sense, (1/2pi) sin(2pi t) as approximated by its arcsine-corrected Chebyshev/double-angle scheme, to within the approximation accuracy, at the input scale and with twelve levels consumed. The result depends on the key and randomness only through small noise.",
 ["inputs","configurations"],"all inputs in [-K,K], all supported widths",
 "evalMod_test samples integers plus 0.0001 and prints ten slots.",
 [BS,PL],[("EvalMod: scaling by 1/K, shift, degree-31 polynomial, four double angles, arcsine step",BS)],["EvalMod"])
prop("C18","Key switching re-encrypts under the target key",
 "For any integer source key and ternary target key, a switching key is an encryption under the target key of the source key times 2^LOGQ, and switching a ciphertext valid under the source key gives one that decrypts under the target key to the same polynomial modulo 2^LOGQ, up to an error bounded by N(8+1/2)+1 per coefficient. The first component of the input contributes unchanged and the key is not modified.",
 ["inputs","configurations"],"all ciphertexts, source keys with entries of any sign and size, ternary target keys, LOGQ, N",
 "Key switching is only exercised with one random key per test and coarse printed precision; large or negative key coefficients and carries at word boundaries are left to chance.",
 [CORE],[("swkgen, ks",CORE)],["HEAAN::swkgen","HEAAN::ks"])
prop("C19","Results do not depend on how parallel loops are scheduled",
 "Iterations of every parallel loop touch disjoint memory (no location written by one iteration is read or written by another), create no shared lazily initialised state and draw no randomness, so results are the same for any number of threads and any schedule.",
 ["schedules"],"all thread counts, schedules and inputs",
 "Tests run with one thread count on one machine and compare nothing across schedules.",
 [CV,CVV],[("#pragma omp parallel for loops",CV),("#pragma omp parallel for loops",CVV)],["conv"])
prop("C20","Computing functions are history-independent and free of side effects",
 "The result of every library function depends only on its arguments (and, for key generation, encryption and switching-key generation, on the random generator): hidden state is limited to caches that are filled once with values independent of the arguments. Input arguments are never modified, and computing functions print nothing.",
 ["histories"],"all call sequences with different arguments and instantiations",
 "Each test program performs one pass through the pipeline; a cache filled from the first call's arguments or a stray write to an input is invisible there.",
 [BS,DFT,CV,PL],[("static matrices and convolution contexts guarded by init flags","include/HEAAN")],["all public functions"])
prop("C21","Library code never reads or writes outside its objects",
 "For every supported parameter set, library functions access only bytes inside the objects they are given or own, never use an uninitialised value, and never perform an undefined conversion or shift, for all inputs that satisfy their stated preconditions.",
 ["inputs","configurations"],"all inputs and supported parameters (limb-boundary widths, smallest and larger N, all groupings)",
 "Reads just past an object or of indeterminate values usually do not change the printed output of the few runs made by the tests.",
 [Z,CRT,NTT,CORE,LT,MX,PL,EN],[("fixed-size arrays indexed by width- and N-derived bounds","include/HEAAN")],["all public functions"])
prop("C22","Clear-side reference arithmetic matches its definition",
 "The unencrypted reference operations - message addition, subtraction, slot-wise complex product, norms, sup-norm, aggregation, plaintext matrix-vector products, and simple-plaintext encode, decode, negacyclic product, addition, subtraction and rotation - compute exactly the mathematical operation they stand for, for all inputs and sizes.",
 ["inputs","configurations"],"all messages, plaintexts, matrices and sizes",
 "These are the oracles the tests and experiments themselves rely on; nothing tests them.",
 [MSG,SP,PT],[("Message and SimplePlaintext functions",MSG)],["Message functions","SimplePlaintext functions"])
prop("C23","The two bootstrapping pipelines refresh the message",
 "In every pipeline instantiation run by src/experiment/section4/proposal.cpp (conventional bootstrapping and EvalRound), for every message within range and every key and randomness for which the integer part introduced by modulus raising stays below the K of EvalMod, the composition of encryption, modulus raising, CoeffToSlot, EvalMod, SlotToCoeff, rescaling and the EvalRound subtractions decrypts and decodes to the original message at the original scale under a larger modulus, up to the error bounds of the stages; in EvalRound the q*I part computed from the raised ciphertext and the CoeffToSlot error cancel exactly. Every stage is called with its period, input range, modulus and scale conditions met, with keys of the same secret, and with real and imaginary halves in the right places.",
 ["inputs","configurations"],"all messages, keys, ring sizes and parameter sets of the experiment programs",
 "bootstrap_test, evalqI_test and end_to_end_test run a few fixed parameter sets on one message with loose printed thresholds; the pipelines in the experiment programs are not run by any test.",
 ["src/experiment/section4/proposal.cpp",BS],[("conventional_bootstrap_test, proposed_bootstrap_test","src/experiment/section4/proposal.cpp")],["proposal"])
prop("C24","Decimal input and output of wide integers round-trip",
 "Writing a wide integer as a decimal string and reading it back returns the same integer for every value and every width; the printing functions print exactly the decimal digits of the value, and the signed form prints the centered value with a minus sign when it is negative.",
 ["inputs","configurations"],"all values, all widths up to the documented buffer size",
 "Only used for printing in two tests.",
 [Z],[("fr_str, to_str",Z)],["Z_Q::fr_str","Z_Q::to_str"])
prop("C25","Measured errors follow the stated theorems",
 "The error of homomorphic matrix products, CoeffToSlot and EvalRound bootstrapping has the size predicted by the paper's lemmas and theorems, on average over messages and randomness.",
 ["inputs","configurations"],"distribution of messages, keys and noise",
 "The experiments print measured and predicted values without comparing them.",
 ["src/experiment/section3/theorem_cts_error.cpp"],[("experiment programs","src/experiment")],["experiment programs"])
prop("C26","Ciphertexts hide the message",
 "Without the secret key, ciphertexts and evaluation keys are computationally indistinguishable from uniformly random data.",
 ["inputs"],"all adversaries with bounded resources",
 "A functional test cannot observe indistinguishability.",
 [CORE,U],[("rand_uint64 based on rand()",U)],["HEAAN::enc","HEAAN::swkgen"])
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for p in P: f.write(json.dumps(p,ensure_ascii=False)+"\n")
print(len(P))
