"""the deciding method per property (MANIFEST) and the reasons for the properties not claimed"""
VF = 'value-flow normal forms over MIR (gated SSA, interprocedural) compared with the definition'
NOTE = ('Static: rustc MIR of the current tree is analysed on every run by a path-merging symbolic dataflow (never executed); '
        'each obligation compares a normal form of public operations with the required one. Different normal forms are reported only when '
        'a valuation of their free symbols separates them; unresolved ones are listed as undecided in the evidence.')
IO = 'value-flow transition systems of the readers (loop summaries over MIR) compared with a reference decoder on abstract files whose payload is symbolic'
IONOTE = ('Static: rustc MIR of the current tree is turned into normal forms on every run: one gated transition per loop of each reader or writer, calls composed '
          'bottom-up; nothing of the crate is executed. The normal forms are interpreted under a meaning of the byte source in which the payload numbers are opaque distinct tokens, '
          'over a systematic family of file layouts (headers, property orders, kinds, byte orders, separators, truncations); layouts outside the family are not covered. '
          'What cannot be interpreted is listed as undecided in the evidence, never reported.')
TECH = {
    'A01': (VF, NOTE),
    'A02': (VF, NOTE),
    'A03': (VF, NOTE),
    'A04': (VF, NOTE),
    'A05': (VF, NOTE),
    'A07': (VF, NOTE),
    'A08': (VF, NOTE),
    'F01': (VF, NOTE),
    'F02': (VF, NOTE),
    'F03': (VF, NOTE),
    'K01': ('value-flow normal forms of every container operation compared with the sequence it denotes', NOTE),
    'G01': ('value-flow normal forms of the mesh algorithms over a family of topologies with symbolic positions, the resulting surface compared with the definition', NOTE),
    'V01': ('value-flow normal forms of every conversion, accessor, constructor and delegating operation composed with each other and compared with identity', NOTE),
    'P01': ('value-flow normal form of the k-th generated point for symbolic parameters, counts and k, compared with the documented formula', NOTE),
    'N03': ('value-flow normal form of one simplification level for symbolic paths and tolerances, recursive calls replaced by the induction hypothesis, compared with the tolerance guarantee', NOTE),
    'L02': ('forced-fault propagation: each fallible read fixed to Err in a value-flow analysis of its function, bottom-up over the call graph', NOTE),
    'L07': ('forced-fault propagation for writes; lint for partial writes and unflushed buffers', NOTE),
    'M02': ('value-flow normal form of the object behind `self` under the condition that failure is reported, compared with the object before', NOTE),
    'M01': ('induction over histories: value-flow normal form of every operation that changes or builds a mesh applied to a symbolic well-formed mesh', NOTE),
    'M03': ('path condition of every positive answer compared with existence of the id; compiler-inserted checks on all paths evaluated for ids of every magnitude', NOTE),
    'M04': ('value-flow normal forms of every index container operation over all representations, evaluated against the sequence-of-usize definition', NOTE),
    'M05': ('loop closed forms of the half edge construction composed with every navigation answer, compared with the definition over the face list', NOTE),
    'A06': ('abstract interpretation over the sign and IEEE classes of the numbers: least fixpoint over every function that makes or changes a restricted number; order facts of box constructors for the unwraps elsewhere', NOTE),
    'H01': ('value-flow normal forms of eq and hash: equality cubes as equations under which the hashed parts must coincide', NOTE),
    'T01': ('induction over the recursion of the tree functions: one level as value-flow normal form, recursive calls replaced by the induction hypothesis', NOTE),
    'T02': ('induction over the recursion of the queries applied to one level of the built tree (value-flow normal forms)', NOTE),
    'N06': ('induction over the recursion of the nearest-neighbour search applied to one level of the built tree (value-flow normal forms)', NOTE),
    'D01': ('flow-sensitive interprocedural taint over MIR from iteration of seeded hash collections, plus a ban list of non-deterministic inputs', NOTE),
    'U01': ('path conditions of every unchecked operation (value-flow analysis) against the contract of the operation', NOTE),
    'C01': ('value-flow normal forms of every pair of dispatch arms compared with each other in both orders; induction over parts', NOTE),
    'N05': ('value-flow normal forms of the corners and axes handed out and of the axis loop (loop summary) against the projection-overlap definition', NOTE),
    'N07': ('incidence identities of the reported point (exact rational functions) in value-flow normal forms; closest-hit loops unrolled', NOTE),
    'L05': (IO + '; positions compared axis by axis', IONOTE),
    'L06': (IO + '; binary fields of every declared kind and byte order', IONOTE),
    'L08': ('value-flow transition systems of the writers: emitted byte sequence decoded again by an independent reader that obeys the emitted header', IONOTE),
    'L09': (IO + '; line and word splitting on every textual variant of the same content', IONOTE),
    'L10': (IO + '; number, order and completeness of the elements delivered', IONOTE),
    'L01': ('panic obligations of the readers (bounds, overflow, unwrap, slices) and reservations in value-flow normal forms: proof against the path condition, refutation along the loop steps forced by abstract hostile files', IONOTE),
    'L04': ('progress argument per reader loop (counter, sequence, consuming read, one-way fact) over value-flow normal forms; refutation by a repeated abstract loop state', IONOTE),
    'S01': ('non-interference over value-flow normal forms: the old content of every buffer and of every field with interior mutability varied with everything else fixed; type-level scan for shared mutable state', NOTE),
    'L03': ('typestate of incremental readers: greatest set of "answers none for ever" states over value-flow normal forms of next(), with inferred constructor invariants', NOTE),
}
NA = {
    'N01': 'decimal text round trip depends on run time numeric formatting and parsing of every f64; no static argument in reach. L05/L06/L08 decide the structural parts (axis order, widths, header).',
    'N02': 'convexity and containment of the hull quantify over floating point orientation signs of all inputs; no static argument in reach.',
    'N04': 'end-point interpolation is a rounding statement about floating point sums of binomial terms.',
}
