_EX = "exhaustive enumeration of inputs over a finite alphabet on the real code, against an exact-arithmetic reference"
_SH = "exhaustive enumeration of inputs over a finite lattice on the real code, against a binary64 reference with error bounds"
_ST = "explicit-state search over operation words on the real code in lock-step with a reference model"
_ALL = " Every case of the stated spaces is executed on the compiled code of /repo; nothing is claimed outside the bounds."
NOTES = {
 "C01": ("explicit-state search over interval programs plus exhaustive operand enumeration, against exact dyadic arithmetic", "All pairs/mixes/unaries over a magnitude ladder (zeros, subnormals .. largest finite) and over intervals given by centre and width, decided by exact rounding down/up; all programs of a two-register machine up to length 4 (thorough 5) with member witnesses." + _ALL),
 "C02": (_EX, "Distance of each bound from the exactly rounded range, counted in representable numbers, over the ladder and over intervals given by centre and width." + _ALL),
 "C03": ("exhaustive enumeration of intervals on the real code, against double-double trigonometry with exact argument reduction", "All intervals over a lattice of multiples of pi/k with float neighbours, a magnitude ladder and the rich alphabet; all intervals given by position and width; f32 point intervals. Trusts the platform's scalar sin/cos to one ulp at the explored arguments (would report otherwise)." + _ALL),
 "C04": ("exhaustive enumeration of intervals on the real code, against double-double inverse trigonometry", "All intervals over a lattice of [-1,1] and the rich alphabet; all pairs of y/x intervals over a signed ladder and over intervals given by centre and width." + _ALL),
 "C05": (_EX, "All pairs and triples of intervals over an ordered alphabet realising every relative position, and all pairs given by centre and width; the oracle is quantification over members." + _ALL),
 "C06": (_EX, "Constants against double-double pi; conversions decided exactly." + _ALL),
 "C07": ("exhaustive enumeration of all f32 bit patterns and a bit-pattern lattice of f64 on the real code", "Complete for f32 (all 2^32 patterns); f64: every exponent with boundary and lattice mantissas." + _ALL),
 "C08": ("exhaustive enumeration on the real code (all f32 patterns for unary facts, all u8/i8 pairs), against native integer/float semantics", "Complete for f32 unary facts and 8-bit types; lattices for the others." + _ALL),
 "C09": (_EX, "All pairs of a lattice around both tolerance thresholds and of the rich alphabet; every one- and two-component perturbation of every aggregate, every position; 8-ulp band at a threshold not judged." + _ALL),
 "C10": (_EX, "All component tuples over small alphabets for every dimension, marker and scalar type, every pair of components over the rich alphabet of each of the ten scalar types; exact comparison (floats: to rounding)." + _ALL),
 "C11": ("exhaustive enumeration of component tuples on the real code, against double-double arithmetic", "All tuples over a signed magnitude ladder; overflowing/underflowing squares excluded." + _ALL),
 "C12": (_EX, "All row/column products, all pairs/triples of structured matrices, every accessor at every position; pairs of entries over the rich alphabet of every scalar type." + _ALL),
 "C13": ("exhaustive enumeration of matrices (all 3^16 ternary ones, all words of elementary matrices) on the real code", "All ternary matrices (3^16), all words of elementary matrices, all pairs/triples of entries over the value alphabets around base matrices; two-sided residual against the identity with a condition-based bound." + _ALL),
 "C14": (_ST, "States are transforms reached by composing with 16 generators on either side and inverting, deduplicated; matrix and inverse compared after every transition with entrywise forward error bounds; every constructor with every pair/three of its parameters over the value alphabets." + _ALL),
 "C15": (_ST, "Every composition transition out of every distinct word and every constructor over the value alphabets: points, vectors, normals and rays by the composition and step by step." + _ALL),
 "C16": (_SH, "All constructor arguments over alphabets of angles, axes, eyes, targets, ups, planes; every pair/three of the parameters over the rich/coarse alphabet." + _ALL),
 "C17": (_ST, "Every distinct affine word, and every affine constructor over the value alphabets, x normal/tangent pairs, both directions." + _ALL),
 "C18": (_EX, "All boxes over a corner lattice, membership quantified over all lattice points, all histories of three unions, pairs/triples of coordinates over the value alphabets; min/max only, so exact." + _ALL),
 "C19": (_ST, "Every distinct affine word and constructor x every box including flat and empty ones; compared with the extent of the mapped corners." + _ALL),
 "C20": (_EX, "Every origin/direction/box/tmax class over a dyadic lattice where all arithmetic is exact, plus inexact lattices and pair/triple sweeps over the value alphabets with a rounding band." + _ALL),
 "C21": (_EX, "The spaces of C20; one listed known finding (origin strictly inside), recognised by its exact outcome." + _ALL),
 "C22": (_SH, "All shapes x origins x targets x lengths x tmax, all chords of a latitude/longitude grid, pair/triple sweeps over the value alphabets; grazing and boundary bands may go either way." + _ALL),
 "C23": (_SH, "Every hit of the spaces of C22; frame recomputed from the reported point." + _ALL),
 "C24": ("explicit-state search over all list-building histories on the real code, against the minimum over the members", "All insertion sequences up to length 5 (thorough 6) over an 11-element menu x all rays, all orders of members hit at (nearly) equal distances; bit-exact comparison with the members' own hits. Trusts single primitives (judged by C20-C23, C25)." + _ALL),
 "C25": (_ST, "Every distinct affine word x primitive x ray, plus pair/triple sweeps of the parameters; the untransformed primitive on the reference object-space ray is the oracle, rays it answers differently within rounding are not judged." + _ALL),
 "C26": (_SH, "Every view word x camera parameters x film/lens grid, plus pair/triple sweeps of all parameters." + _ALL),
 "C27": (_SH, "Every sample of a uniform grid and of the float neighbourhoods of the special lines; areas of all grid cells." + _ALL),
 "C28": ("exhaustive enumeration of interval vectors and transform words on the real code, against double-double member witnesses", "Every combination of member ends and midpoints/zeros is a witness that must be enclosed; vectors given by centre and width, all words and all constructors." + _ALL),
 "C29": ("exhaustive enumeration of rays, interactions and transform words on the real code, against reference formulas with error bounds", "Exact (integer types) or error-bounded (floats) origin + t * direction for all ten scalar types; interactions over all pairs and triples of tangent components, under every word and constructor." + _ALL),
}
