ASTRO = 'Every path of the compiled function (LLVM IR of the current source) is compared with the contract in real arithmetic; rounding of doubles is not proved, only sampled on the compiled code. '
CLAIMS.update({
 'C14': dict(note=ASTRO + 'Two range clauses of 130 rest on sampled runs.'),
 'C15': dict(note=ASTRO),
 'C16': dict(note=ASTRO),
 'C17': dict(note=ASTRO + 'Eight of 308 obligations are checked numerically only.'),
 'C18': dict(note=ASTRO + 'One of 71 obligations is checked numerically only.'),
 'C19': dict(note=ASTRO + 'The altitude/latitude iteration is proved by induction over its iterations; contraction of the iteration by z3.'),
 'C20': dict(note=ASTRO + 'The 106-term nutation series is compared term by term with the IAU 1980 table.'),
})
MODEL = 'Initialisation, every branch and every loop iteration of the compiled functions against the published equations, in real arithmetic; rounding is only sampled, on histories of calls of the compiled model. '
CLAIMS.update({
 'C09': dict(note=MODEL),
 'C10': dict(note=MODEL + 'Deep_dpinit, Deep_dpsec and Deep_dpper are proved separately and used by SDP4 through their contracts.'),
 'C13': dict(note=MODEL),
 'C08': dict(note='Every path of select_ephemeris and the mean-motion recovery it uses; rounding at the 225-minute threshold is only sampled.'),
 'C11': dict(note=MODEL + 'The one-entry cache of Moon and Sun positions is proved for histories of up to five calls, not by induction.'),
 'C12': dict(note=MODEL),
})
HP='Per resolution and integer width the compiled functions (LLVM IR of the current source) are executed symbolically and every path is discharged over the integers by z3; bit interleaving, refusals and wrap-around by CBMC on the source itself. '
CLAIMS.update({
 'C01': dict(note=HP+'All 30+14 orders, both widths; nothing bounded.'),
 'C02': dict(note=HP+'Real arithmetic for the directions, with the rounding at pixel edges handled by a separate clause; the rest of rounding is sampled. The range of the ring answer uses the C01 contracts.'),
 'C03': dict(note=HP+'isqrt is proved in a rounding model (round-to-nearest square root within half an ulp).'),
})
CLAIMS.update({
 'C07': dict(note='All inputs, double and float rounding modelled (exactness lattice, monotone rounding); the calendar terms of the code are evaluated on every day number; next to whole seconds the compiled function is run on every double of the window. sscanf/sprintf by contract.'),
})
TL='CBMC on the parser source (C contracts of the callees substituted: tle_checksum in parse_elements, atoi) for every byte string of each length up to 70; a counterexample counts when the compiled parser fails on it. '
CLAIMS.update({
 'C04': dict(note=TL+'Longer texts: the code reads no byte past column 70 (C06).'),
 'C05': dict(note=TL+'Decoded reals: symbolic digits in the compiled code, z3, all sign/exponent/blank layouts of each field; fields are varied one at a time in the proof and all at once in the compiled runs.'),
 'C06': dict(note=TL+'Pairs with one short line are checked for every length; loops are unwound completely (unwinding assertions). 32-bit overflow inside atoi of the C library is by contract.'),
})
TOOLT='contract of the whole program (written from its documentation, over the contracts of its callees) monitored on generated requests of the compiled program'
TOOL='Bounded: the contract of the program is checked on generated requests only (thresholds over-represented). '
CLAIMS.update({k: dict(note=TOOL, technique=TOOLT, level='exploration') for k in ('C21', 'C22', 'C23', 'C24', 'C25')})
for p in props:
    if p['id'] not in CLAIMS: NA[p['id']] = 'not built yet: contracts for this property are planned in DESIGN.md'
