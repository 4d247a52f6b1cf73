/* generated by iop/gen_vcons.py */
static vc_rule_t const vc_rules_g[] = {
    { .st = "vcons.Leaf", .f = "f0", .has_min = true, .min = (__int128)2ULL, .has_max = true, .max = (__int128)5ULL },
    { .st = "vcons.Leaf", .f = "f1", .maxlen = 2 },
    { .st = "vcons.S0", .f = "f0", .has_max = true, .max = (__int128)-(__int128)965876602ULL, .nonzero = true },
    { .st = "vcons.S0", .f = "f3", .has_min = true, .min = (__int128)-(__int128)5ULL },
    { .st = "vcons.S0", .f = "f4", .has_min = true, .min = (__int128)3ULL, .has_max = true, .max = (__int128)10ULL },
    { .st = "vcons.S0", .f = "f5", .minlen = 1 },
    { .st = "vcons.S0", .f = "f7", .has_min = true, .min = (__int128)1ULL },
    { .st = "vcons.S1", .f = "f1", .nvals = 2, .vals = { 9, 100 }, .has_vals = true, .priv = true },
    { .st = "vcons.S1", .f = "f2", .minlen = 1, .maxlen = 1 },
    { .st = "vcons.S1", .f = "f3", .minocc = 2 },
    { .st = "vcons.S1", .f = "f4", .has_min = true, .min = (__int128)4476395299150328645ULL },
    { .st = "vcons.U2", .f = "f0", .has_min = true, .min = (__int128)1ULL, .has_max = true, .max = (__int128)1ULL, .nonzero = true },
    { .st = "vcons.U2", .f = "f1", .nvals = 3, .vals = { 1, 4, 100 }, .has_vals = true },
    { .st = "vcons.U2", .f = "f2", .has_min = true, .min = (__int128)10ULL },
    { .st = "vcons.U2", .f = "f3", .nonzero = true },
    { .st = "vcons.U2", .f = "f4", .minlen = 1 },
    { .st = "vcons.S3", .f = "f0", .has_min = true, .min = (__int128)10ULL },
    { .st = "vcons.S3", .f = "f1", .has_max = true, .max = (__int128)4217851731ULL, .nonzero = true },
    { .st = "vcons.S3", .f = "f3", .has_min = true, .min = (__int128)0ULL },
    { .st = "vcons.K4", .f = "f40", .nonzero = true },
    { .st = "vcons.K4", .f = "f41", .nvals = 3, .vals = { 1, 9, 100 }, .has_vals = true },
    { .st = "vcons.K4", .f = "f42", .has_min = true, .min = (__int128)3ULL, .priv = true },
    { .st = "vcons.S5", .f = "f0", .nvals = 3, .vals = { 4, 9, 100 }, .has_vals = true },
    { .st = "vcons.S5", .f = "f1", .has_max = true, .max = (__int128)32766ULL },
    { .st = "vcons.S5", .f = "f2", .nvals = 3, .vals = { 2, 3, 4 }, .has_vals = true },
    { .st = "vcons.S5", .f = "f3", .minocc = 1, .maxocc = 3 },
    { .st = "vcons.S6", .f = "f0", .nnot = 1, .notvals = { 5 } },
    { .st = "vcons.S6", .f = "f2", .has_min = true, .min = (__int128)0ULL, .has_max = true, .max = (__int128)112ULL, .nonzero = true },
    { .st = "vcons.S6", .f = "f3", .priv = true },
    { .st = "vcons.S6", .f = "f4", .has_max = true, .max = (__int128)6897ULL, .nonzero = true },
    { .st = "vcons.S6", .f = "f5", .has_dmin = true, .dmin = -10000000000.0, .has_dmax = true, .dmax = 1500000000000.0, .minocc = 3, .maxocc = 4 },
    { .st = "vcons.S6", .f = "f6", .priv = true },
    { .st = "vcons.S6", .f = "f7", .nonzero = true },
    { .st = "vcons.S7", .f = "f0", .has_dmin = true, .dmin = -1.5, .minocc = 1, .maxocc = 2 },
    { .st = "vcons.S7", .f = "f1", .minlen = 2, .maxlen = 6 },
    { .st = "vcons.S7", .f = "f2", .nonzero = true },
    { .st = "vcons.S7", .f = "f3", .has_min = true, .min = (__int128)-(__int128)127ULL },
    { .st = "vcons.S7", .f = "f4", .maxlen = 2, .cset = "abcdefghijklmnopqrstuvwxyz" },
    { .st = "vcons.S7", .f = "f5", .has_min = true, .min = (__int128)10ULL, .has_max = true, .max = (__int128)17ULL },
    { .st = "vcons.S7", .f = "f6", .has_max = true, .max = (__int128)4294967294ULL },
    { .st = "vcons.S7", .f = "f8", .has_dmin = true, .dmin = -1.5, .nonzero = true, .minocc = 2 },
    { .st = "vcons.U8", .f = "f0", .minlen = 5, .maxlen = 11 },
    { .st = "vcons.U8", .f = "f1", .has_max = true, .max = (__int128)65534ULL },
    { .st = "vcons.U8", .f = "f2", .has_min = true, .min = (__int128)0ULL, .has_max = true, .max = (__int128)254ULL, .nonzero = true },
    { .st = "vcons.U8", .f = "f3", .has_min = true, .min = (__int128)0ULL },
    { .st = "vcons.S9", .f = "f2", .has_max = true, .max = (__int128)7ULL },
    { .st = "vcons.S9", .f = "f3", .has_min = true, .min = (__int128)10ULL, .has_max = true, .max = (__int128)65534ULL, .nonzero = true },
    { .st = "vcons.S9", .f = "f5", .has_max = true, .max = (__int128)9223372036854775806ULL },
    { .st = "vcons.K10", .f = "f100", .minocc = 3 },
    { .st = "vcons.K10", .f = "f101", .minocc = 2, .nvals = 4, .vals = { 1, 4, 9, 100 }, .has_vals = true },
    { .st = "vcons.K10", .f = "f102", .maxlen = 5, .minocc = 1, .maxocc = 2 },
    { .st = "vcons.K10", .f = "f103", .has_max = true, .max = (__int128)54508ULL, .nonzero = true },
    { .st = "vcons.S11", .f = "f0", .nvals = 4, .vals = { 1, 4, 9, 100 }, .has_vals = true },
    { .st = "vcons.S11", .f = "f1", .nvals = 1, .vals = { 5 }, .has_vals = true },
    { .st = "vcons.S11", .f = "f2", .minlen = 1, .cset = "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz_-" },
    { .st = "vcons.S12", .f = "f0", .has_min = true, .min = (__int128)3ULL, .has_max = true, .max = (__int128)8086863892233591579ULL },
    { .st = "vcons.S12", .f = "f2", .has_max = true, .max = (__int128)-(__int128)2147483641ULL },
    { .st = "vcons.S12", .f = "f3", .nvals = 2, .vals = { 1, 4 }, .has_vals = true },
    { .st = "vcons.S12", .f = "f4", .minlen = 1, .maxlen = 6 },
    { .st = "vcons.S12", .f = "f6", .minlen = 1, .cset = "0123456789_" },
    { .st = "vcons.S13", .f = "f0", .has_min = true, .min = (__int128)0ULL, .has_max = true, .max = (__int128)7ULL },
    { .st = "vcons.S13", .f = "f2", .minlen = 3, .maxlen = 8, .cset = "abcdefghijklmnopqrstuvwxyz" },
    { .st = "vcons.S13", .f = "f3", .has_dmin = true, .dmin = -10000000000.0, .minocc = 3 },
    { .st = "vcons.S13", .f = "f5", .has_max = true, .max = (__int128)18446744073709551614ULL },
    { .st = "vcons.S13", .f = "f6", .has_min = true, .min = (__int128)-(__int128)127ULL, .minocc = 2, .maxocc = 4 },
    { .st = "vcons.U14", .f = "f2", .has_dmin = true, .dmin = 1.53, .has_dmax = true, .dmax = 100.0 },
    { .st = "vcons.U14", .f = "f3", .has_min = true, .min = (__int128)10ULL, .has_max = true, .max = (__int128)2643515617037728559ULL, .nonzero = true },
    { .st = "vcons.U14", .f = "f4", .nvals = 1, .vals = { 2 }, .has_vals = true },
    { .st = "vcons.S15", .f = "f0", .has_min = true, .min = (__int128)3262617551639541599ULL, .has_max = true, .max = (__int128)3262617551639541599ULL, .nonzero = true },
    { .st = "vcons.S15", .f = "f1", .has_min = true, .min = (__int128)10ULL, .has_max = true, .max = (__int128)17ULL },
    { .st = "vcons.S15", .f = "f2", .has_max = true, .max = (__int128)-(__int128)32768ULL },
    { .st = "vcons.S15", .f = "f3", .cset = "^[]" },
    { .st = "vcons.S15", .f = "f4", .minocc = 3, .maxocc = 5, .cset = "^[]" },
    { .st = "vcons.S15", .f = "f5", .nvals = 4, .vals = { 1, 2, 4, 5 }, .has_vals = true },
    { .st = "vcons.S15", .f = "f6", .minlen = 1, .cset = "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz_-" },
    { .st = "vcons.K16", .f = "f160", .has_min = true, .min = (__int128)1ULL },
    { .st = "vcons.K16", .f = "f161", .nvals = 1, .vals = { 1 }, .has_vals = true, .priv = true },
    { .st = "vcons.K16", .f = "f162", .has_min = true, .min = (__int128)-(__int128)2147483647ULL, .has_max = true, .max = (__int128)-(__int128)2147483640ULL },
    { .st = "vcons.K16", .f = "f163", .has_min = true, .min = (__int128)10ULL },
    { .st = "vcons.S17", .f = "f0", .nvals = 2, .vals = { 2, 3 }, .has_vals = true },
    { .st = "vcons.S17", .f = "f1", .has_max = true, .max = (__int128)7ULL },
    { .st = "vcons.S17", .f = "f2", .minlen = 3, .maxlen = 6 },
    { .st = "vcons.S17", .f = "f3", .has_min = true, .min = (__int128)863422007734053753ULL },
    { .st = "vcons.S17", .f = "f5", .nvals = 2, .vals = { 3, 5 }, .has_vals = true },
    { .st = "vcons.S17", .f = "f6", .has_dmin = true, .dmin = 1.53, .nonzero = true, .minocc = 2, .maxocc = 3 },
    { .st = "vcons.S17", .f = "f7", .has_min = true, .min = (__int128)-(__int128)127ULL, .nonzero = true },
    { .st = "vcons.S18", .f = "f2", .nvals = 1, .vals = { 1 }, .has_vals = true },
    { .st = "vcons.S18", .f = "f3", .has_min = true, .min = (__int128)-(__int128)127ULL, .has_max = true, .max = (__int128)86ULL, .nonzero = true },
    { .st = "vcons.S18", .f = "f5", .has_dmax = true, .dmax = 2.5, .nonzero = true },
    { .st = "vcons.S19", .f = "f0", .has_min = true, .min = (__int128)1ULL, .has_max = true, .max = (__int128)2307048858ULL, .nonzero = true },
    { .st = "vcons.S19", .f = "f1", .has_max = true, .max = (__int128)-(__int128)962ULL },
    { .st = "vcons.S19", .f = "f3", .has_max = true, .max = (__int128)-(__int128)128ULL, .nonzero = true, .minocc = 1, .maxocc = 3 },
    { .st = "vcons.S19", .f = "f4", .has_min = true, .min = (__int128)-(__int128)691988353ULL, .has_max = true, .max = (__int128)2147483646ULL },
    { .st = "vcons.U20", .f = "f0", .nvals = 4, .vals = { 1, 4, 9, 100 }, .has_vals = true },
    { .st = "vcons.U20", .f = "f1", .has_max = true, .max = (__int128)-(__int128)2147483648ULL },
    { .st = "vcons.U20", .f = "f2", .has_min = true, .min = (__int128)1ULL },
    { .st = "vcons.S21", .f = "f0", .nvals = 4, .vals = { 1, 4, 9, 100 }, .has_vals = true },
    { .st = "vcons.K22", .f = "f220", .minlen = 1 },
    { .st = "vcons.K22", .f = "f221", .nvals = 4, .vals = { 1, 4, 9, 100 }, .has_vals = true },
    { .st = "vcons.S23", .f = "f0", .minlen = 1 },
    { .st = "vcons.S23", .f = "f3", .minocc = 3 },
    { .st = "vcons.S23", .f = "f4", .has_dmax = true, .dmax = 2.5, .nonzero = true, .maxocc = 2 },
    { .st = "vcons.S23", .f = "f5", .has_min = true, .min = (__int128)1ULL, .nonzero = true },
    { .st = "vcons.S23", .f = "f6", .has_min = true, .min = (__int128)-(__int128)32767ULL, .has_max = true, .max = (__int128)-(__int128)32767ULL },
    { .st = "vcons.S23", .f = "f8", .has_min = true, .min = (__int128)10ULL, .maxocc = 2 },
    { .st = "vcons.S24", .f = "f0", .has_min = true, .min = (__int128)-(__int128)5ULL, .has_max = true, .max = (__int128)-(__int128)5ULL, .nonzero = true, .minocc = 3 },
    { .st = "vcons.S24", .f = "f1", .has_min = true, .min = (__int128)-(__int128)9223372036854775807ULL, .has_max = true, .max = (__int128)-(__int128)4882663754719676723ULL },
    { .st = "vcons.S24", .f = "f2", .maxocc = 1 },
    { .st = "vcons.S25", .f = "f0", .has_dmax = true, .dmax = 2.5, .priv = true },
    { .st = "vcons.S25", .f = "f1", .nvals = 3, .vals = { 2, 3, 4 }, .has_vals = true },
    { .st = "vcons.S25", .f = "f2", .has_max = true, .max = (__int128)-(__int128)7779ULL, .nonzero = true, .maxocc = 2 },
    { .st = "vcons.S25", .f = "f3", .has_min = true, .min = (__int128)-(__int128)2609659390692035897ULL },
    { .st = "vcons.S25", .f = "f4", .minlen = 1 },
    { .st = "vcons.S25", .f = "f5", .minlen = 1 },
    { .st = "vcons.S25", .f = "f6", .has_max = true, .max = (__int128)-(__int128)32761ULL, .minocc = 1 },
    { .st = "vcons.S25", .f = "f7", .has_min = true, .min = (__int128)0ULL, .has_max = true, .max = (__int128)4294967294ULL, .minocc = 3 },
    { .st = "vcons.S25", .f = "f8", .minocc = 3 },
    { .st = "vcons.U26", .f = "f1", .maxlen = 3 },
    { .st = "vcons.U26", .f = "f2", .has_dmin = true, .dmin = -1.5 },
    { .st = "vcons.S27", .f = "f0", .has_min = true, .min = (__int128)0ULL, .has_max = true, .max = (__int128)4300672191139486786ULL },
    { .st = "vcons.S27", .f = "f3", .has_min = true, .min = (__int128)0ULL, .priv = true },
    { .st = "vcons.K28", .f = "f280", .maxocc = 1 },
    { .st = "vcons.K28", .f = "f281", .minlen = 1, .maxlen = 4 },
    { .st = "vcons.K28", .f = "f282", .has_max = true, .max = (__int128)-(__int128)128ULL },
    { .st = "vcons.S29", .f = "f1", .minlen = 4, .maxlen = 5 },
    { .st = "vcons.S29", .f = "f2", .has_min = true, .min = (__int128)1ULL, .has_max = true, .max = (__int128)8ULL, .nonzero = true },
    { .st = "vcons.S29", .f = "f4", .maxocc = 3 },
    { .st = "vcons.S29", .f = "f5", .cset = "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz_-" },
    { .st = "vcons.S29", .f = "f6", .has_min = true, .min = (__int128)0ULL, .has_max = true, .max = (__int128)7ULL },
    { .st = "vcons.S30", .f = "f0", .has_min = true, .min = (__int128)3ULL, .has_max = true, .max = (__int128)3ULL },
    { .st = "vcons.S30", .f = "f1", .has_min = true, .min = (__int128)10ULL, .has_max = true, .max = (__int128)10ULL, .minocc = 1, .maxocc = 3 },
    { .st = "vcons.S30", .f = "f2", .has_min = true, .min = (__int128)-(__int128)127ULL },
    { .st = "vcons.S30", .f = "f3", .minlen = 4, .maxlen = 9 },
    { .st = "vcons.S30", .f = "f4", .nonzero = true },
    { .st = "vcons.S30", .f = "f5", .has_dmax = true, .dmax = 1500000000000.0, .priv = true },
    { .st = "vcons.S30", .f = "f7", .minlen = 1, .maxocc = 1, .priv = true },
    { .st = "vcons.S31", .f = "f0", .has_max = true, .max = (__int128)64ULL },
    { .st = "vcons.S31", .f = "f1", .has_dmin = true, .dmin = 1.53 },
    { .st = "vcons.U32", .f = "f0", .has_min = true, .min = (__int128)1ULL, .has_max = true, .max = (__int128)1ULL },
    { .st = "vcons.U32", .f = "f2", .has_min = true, .min = (__int128)0ULL, .has_max = true, .max = (__int128)0ULL, .nonzero = true },
    { .st = "vcons.U32", .f = "f3", .minlen = 6, .maxlen = 6 },
    { .st = "vcons.U32", .f = "f4", .has_min = true, .min = (__int128)2386166845262616026ULL, .has_max = true, .max = (__int128)2386166845262616026ULL, .nonzero = true },
    { .st = "vcons.S33", .f = "f0", .has_min = true, .min = (__int128)9515ULL, .nonzero = true, .minocc = 3 },
    { .st = "vcons.S33", .f = "f1", .minlen = 1, .cset = "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz_-" },
    { .st = "vcons.S33", .f = "f2", .minocc = 1, .maxocc = 3 },
    { .st = "vcons.K34", .f = "f340", .has_max = true, .max = (__int128)-(__int128)32768ULL },
    { .st = "vcons.K34", .f = "f341", .nnot = 2, .notvals = { 5, -3 } },
    { .st = "vcons.K34", .f = "f342", .has_min = true, .min = (__int128)0ULL, .nonzero = true },
    { .st = "vcons.S35", .f = "f0", .maxlen = 2 },
    { .st = "vcons.S35", .f = "f1", .minlen = 3 },
    { .st = "vcons.S35", .f = "f2", .minlen = 3, .maxlen = 5 },
    { .st = "vcons.S35", .f = "f3", .nvals = 2, .vals = { -3, 2 }, .has_vals = true },
    { .st = "vcons.Ref0", .f = "f0", .nvals = 2, .vals = { 1, 2 }, .has_vals = true },
    { .st = "vcons.Ref0", .f = "f2", .nvals = 2, .vals = { 1, 2 }, .has_vals = true },
    { .st = "vcons.Ref1", .f = "f0", .nvals = 3, .vals = { 3, 4, 5 }, .has_vals = true },
    { .st = "vcons.Ref1", .f = "f2", .nvals = 3, .vals = { 3, 4, 5 }, .has_vals = true },
};
