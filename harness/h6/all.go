package h6

// All maps harness names to functions (generated by gen.sh).
var All = map[string]func(){
	"h6.Q_C01_algebra11":          Q_C01_algebra11,
	"h6.Q_C01_algebra11wide":      Q_C01_algebra11wide,
	"h6.Q_C01_algebra12":          Q_C01_algebra12,
	"h6.Q_C01_algebra21":          Q_C01_algebra21,
	"h6.Q_C01_algebra22":          Q_C01_algebra22,
	"h6.Q_C01_algebraGap":         Q_C01_algebraGap,
	"h6.Q_C01_big":                Q_C01_big,
	"h6.Q_C01_bigTwo":             Q_C01_bigTwo,
	"h6.Q_C01_leaves":             Q_C01_leaves,
	"h6.Q_C01_operands":           Q_C01_operands,
	"h6.Q_C01_steps":              Q_C01_steps,
	"h6.Q_C01_unionFree":          Q_C01_unionFree,
	"h6.Q_C02_big":                Q_C02_big,
	"h6.Q_C02_canonical11":        Q_C02_canonical11,
	"h6.Q_C02_canonical22":        Q_C02_canonical22,
	"h6.Q_C02_canonicalGap":       Q_C02_canonicalGap,
	"h6.Q_C02_canonicalInsert":    Q_C02_canonicalInsert,
	"h6.Q_C02_canonicalSingle":    Q_C02_canonicalSingle,
	"h6.Q_C02_equal11":            Q_C02_equal11,
	"h6.Q_C02_equal22":            Q_C02_equal22,
	"h6.Q_C02_equalLeaves":        Q_C02_equalLeaves,
	"h6.Q_C02_halves":             Q_C02_halves,
	"h6.Q_C02_leaves":             Q_C02_leaves,
	"h6.Q_C02_order":              Q_C02_order,
	"h6.Q_C02_steps":              Q_C02_steps,
	"h6.Q_C02_stepsTwo":           Q_C02_stepsTwo,
	"h6.Q_C02_undo":               Q_C02_undo,
	"h6.Q_C03_big":                Q_C03_big,
	"h6.Q_C03_contains11":         Q_C03_contains11,
	"h6.Q_C03_contains22":         Q_C03_contains22,
	"h6.Q_C03_containsMissing":    Q_C03_containsMissing,
	"h6.Q_C03_counts":             Q_C03_counts,
	"h6.Q_C03_countsFree":         Q_C03_countsFree,
	"h6.Q_C03_leaves":             Q_C03_leaves,
	"h6.Q_C03_many":               Q_C03_many,
	"h6.Q_C03_prefixContains":     Q_C03_prefixContains,
	"h6.Q_C03_prefixContainsNear": Q_C03_prefixContainsNear,
	"h6.Q_C03_prefixCounts":       Q_C03_prefixCounts,
	"h6.Q_C03_steps":              Q_C03_steps,
	"h6.Q_C04_big":                Q_C04_big,
	"h6.Q_C04_leaves":             Q_C04_leaves,
	"h6.Q_C04_many":               Q_C04_many,
	"h6.Q_C04_prefixes":           Q_C04_prefixes,
	"h6.Q_C04_ranges1":            Q_C04_ranges1,
	"h6.Q_C04_ranges2":            Q_C04_ranges2,
	"h6.Q_C04_ranges3":            Q_C04_ranges3,
	"h6.Q_C04_ranges4":            Q_C04_ranges4,
	"h6.Q_C04_rangesGap":          Q_C04_rangesGap,
	"h6.Q_C04_steps":              Q_C04_steps,
	"h6.Q_C04_stop":               Q_C04_stop,
	"h6.Q_C04_top":                Q_C04_top,
	"h6.Q_C05_algebra":            Q_C05_algebra,
	"h6.Q_C05_contains":           Q_C05_contains,
	"h6.Q_C05_containsAddr":       Q_C05_containsAddr,
	"h6.Q_C05_from":               Q_C05_from,
	"h6.Q_C05_minus":              Q_C05_minus,
	"h6.Q_C05_minusPlus":          Q_C05_minusPlus,
	"h6.Q_C05_plus":               Q_C05_plus,
	"h6.Q_C05_prefix":             Q_C05_prefix,
	"h6.Q_C05_set":                Q_C05_set,
	"h6.Q_C05_setAt":              Q_C05_setAt,
	"h6.Q_C06_big":                Q_C06_big,
	"h6.Q_C06_build":              Q_C06_build,
	"h6.Q_C06_bulk":               Q_C06_bulk,
	"h6.Q_C06_fork":               Q_C06_fork,
	"h6.Q_C06_history2":           Q_C06_history2,
	"h6.Q_C06_history3":           Q_C06_history3,
	"h6.Q_C06_history3all":        Q_C06_history3all,
	"h6.Q_C06_history4":           Q_C06_history4,
	"h6.Q_C06_leaves":             Q_C06_leaves,
	"h6.Q_C06_operands":           Q_C06_operands,
	"h6.Q_C06_steps":              Q_C06_steps,
	"h6.Q_C07_big":                Q_C07_big,
	"h6.Q_C07_gap":                Q_C07_gap,
	"h6.Q_C07_invalid":            Q_C07_invalid,
	"h6.Q_C07_leaves":             Q_C07_leaves,
	"h6.Q_C07_one":                Q_C07_one,
	"h6.Q_C07_oneNone":            Q_C07_oneNone,
	"h6.Q_C07_repeat":             Q_C07_repeat,
	"h6.Q_C07_reserved2":          Q_C07_reserved2,
	"h6.Q_C07_reserved3":          Q_C07_reserved3,
	"h6.Q_C07_reservedLeaves":     Q_C07_reservedLeaves,
	"h6.Q_C07_steps":              Q_C07_steps,
	"h6.Q_C07_two":                Q_C07_two,
	"h6.Q_C07_two2":               Q_C07_two2,
	"h6.Q_C08_afterInserts":       Q_C08_afterInserts,
	"h6.Q_C08_big":                Q_C08_big,
	"h6.Q_C08_history1":           Q_C08_history1,
	"h6.Q_C08_history2":           Q_C08_history2,
	"h6.Q_C08_history3":           Q_C08_history3,
	"h6.Q_C08_line":               Q_C08_line,
	"h6.Q_C08_many":               Q_C08_many,
	"h6.Q_C08_nilValues":          Q_C08_nilValues,
	"h6.Q_C08_removes":            Q_C08_removes,
	"h6.Q_C08_tree":               Q_C08_tree,
	"h6.Q_C08_wide":               Q_C08_wide,
	"h6.Q_C09_address":            Q_C09_address,
	"h6.Q_C09_big":                Q_C09_big,
	"h6.Q_C09_far":                Q_C09_far,
	"h6.Q_C09_line":               Q_C09_line,
	"h6.Q_C09_lineAndOne":         Q_C09_lineAndOne,
	"h6.Q_C09_match1":             Q_C09_match1,
	"h6.Q_C09_match2":             Q_C09_match2,
	"h6.Q_C09_match3":             Q_C09_match3,
	"h6.Q_C09_match4":             Q_C09_match4,
	"h6.Q_C09_nilValues":          Q_C09_nilValues,
	"h6.Q_C09_removed":            Q_C09_removed,
	"h6.Q_C09_tree":               Q_C09_tree,
	"h6.Q_C09_wide":               Q_C09_wide,
	"h6.Q_C10_big":                Q_C10_big,
	"h6.Q_C10_line":               Q_C10_line,
	"h6.Q_C10_many":               Q_C10_many,
	"h6.Q_C10_nilValues":          Q_C10_nilValues,
	"h6.Q_C10_removed":            Q_C10_removed,
	"h6.Q_C10_stop":               Q_C10_stop,
	"h6.Q_C10_tree":               Q_C10_tree,
	"h6.Q_C10_walk2":              Q_C10_walk2,
	"h6.Q_C10_walk3":              Q_C10_walk3,
	"h6.Q_C10_walk4":              Q_C10_walk4,
	"h6.Q_C10_wide":               Q_C10_wide,
	"h6.Q_C11_big":                Q_C11_big,
	"h6.Q_C11_derived":            Q_C11_derived,
	"h6.Q_C11_derived3":           Q_C11_derived3,
	"h6.Q_C11_empty":              Q_C11_empty,
	"h6.Q_C11_line":               Q_C11_line,
	"h6.Q_C11_lines":              Q_C11_lines,
	"h6.Q_C11_nil":                Q_C11_nil,
	"h6.Q_C11_nilValues":          Q_C11_nilValues,
	"h6.Q_C11_separate11":         Q_C11_separate11,
	"h6.Q_C11_separate21":         Q_C11_separate21,
	"h6.Q_C11_separate22":         Q_C11_separate22,
	"h6.Q_C11_stop":               Q_C11_stop,
	"h6.Q_C11_tree":               Q_C11_tree,
	"h6.Q_C11_wide":               Q_C11_wide,
	"h6.Q_C12_big":                Q_C12_big,
	"h6.Q_C12_far":                Q_C12_far,
	"h6.Q_C12_line":               Q_C12_line,
	"h6.Q_C12_nilValues":          Q_C12_nilValues,
	"h6.Q_C12_removed":            Q_C12_removed,
	"h6.Q_C12_three":              Q_C12_three,
	"h6.Q_C12_tree7":              Q_C12_tree7,
	"h6.Q_C12_two":                Q_C12_two,
	"h6.Q_C13_big":                Q_C13_big,
	"h6.Q_C13_diff":               Q_C13_diff,
	"h6.Q_C13_line":               Q_C13_line,
	"h6.Q_C13_nil":                Q_C13_nil,
	"h6.Q_C13_nilValues":          Q_C13_nilValues,
	"h6.Q_C13_removed":            Q_C13_removed,
	"h6.Q_C13_three":              Q_C13_three,
	"h6.Q_C13_tree":               Q_C13_tree,
	"h6.Q_C13_two":                Q_C13_two,
	"h6.Q_C13_wide":               Q_C13_wide,
	"h6.Q_C14_big":                Q_C14_big,
	"h6.Q_C14_build":              Q_C14_build,
	"h6.Q_C14_derived":            Q_C14_derived,
	"h6.Q_C14_fork":               Q_C14_fork,
	"h6.Q_C14_line":               Q_C14_line,
	"h6.Q_C14_nilValues":          Q_C14_nilValues,
	"h6.Q_C14_snapshots2":         Q_C14_snapshots2,
	"h6.Q_C14_snapshots3":         Q_C14_snapshots3,
	"h6.Q_C14_snapshots4":         Q_C14_snapshots4,
	"h6.Q_C14_tree":               Q_C14_tree,
	"h6.Q_C15_derived":            Q_C15_derived,
	"h6.Q_C15_readers":            Q_C15_readers,
	"h6.Q_C15_setABA":             Q_C15_setABA,
	"h6.Q_C15_setReader":          Q_C15_setReader,
	"h6.Q_C15_setReads":           Q_C15_setReads,
	"h6.Q_C15_setWriters":         Q_C15_setWriters,
	"h6.Q_C15_setWritersAny":      Q_C15_setWritersAny,
	"h6.Q_C15_setsCross":          Q_C15_setsCross,
	"h6.Q_C15_tableABA":           Q_C15_tableABA,
	"h6.Q_C15_tableReader":        Q_C15_tableReader,
	"h6.Q_C15_tableReads":         Q_C15_tableReads,
	"h6.Q_C15_tableWriters":       Q_C15_tableWriters,
	"h6.Q_C16_fresh":              Q_C16_fresh,
	"h6.Q_C16_groups":             Q_C16_groups,
	"h6.Q_C16_input":              Q_C16_input,
	"h6.Q_C16_ipnetSizes":         Q_C16_ipnetSizes,
	"h6.Q_C16_mask":               Q_C16_mask,
	"h6.Q_C16_maskGroups":         Q_C16_maskGroups,
	"h6.Q_C16_maskLength":         Q_C16_maskLength,
	"h6.Q_C16_maskLengthAny":      Q_C16_maskLengthAny,
	"h6.Q_C16_netip":              Q_C16_netip,
	"h6.Q_C16_netmask":            Q_C16_netmask,
	"h6.Q_C16_netmaskBytes":       Q_C16_netmaskBytes,
	"h6.Q_C16_netmaskPrefix":      Q_C16_netmaskPrefix,
	"h6.Q_C16_order":              Q_C16_order,
	"h6.Q_C16_prefixUint64":       Q_C16_prefixUint64,
	"h6.Q_C16_slice":              Q_C16_slice,
	"h6.Q_C17_equal":              Q_C17_equal,
	"h6.Q_C17_halves":             Q_C17_halves,
	"h6.Q_C17_host":               Q_C17_host,
	"h6.Q_C17_num":                Q_C17_num,
	"h6.Q_C17_numLong":            Q_C17_numLong,
	"h6.Q_C17_parts":              Q_C17_parts,
	"h6.Q_C17_range":              Q_C17_range,
	"h6.Q_C18_mapped":             Q_C18_mapped,
	"h6.Q_C18_mask":               Q_C18_mask,
	"h6.Q_C18_one":                Q_C18_one,
	"h6.Q_C18_parse6":             Q_C18_parse6,
	"h6.Q_C18_parseAround":        Q_C18_parseAround,
	"h6.Q_C18_parsePrefix":        Q_C18_parsePrefix,
	"h6.Q_C18_prefix":             Q_C18_prefix,
	"h6.Q_C18_range":              Q_C18_range,
	"h6.Q_C18_set":                Q_C18_set,
	"h6.Q_C18_two":                Q_C18_two,
	"h6.Q_C18_v4":                 Q_C18_v4,
	"h6.Q_C18_zeroes":             Q_C18_zeroes,
	"h6.Q_C20_nilPrefix":          Q_C20_nilPrefix,
	"h6.Q_C20_nilSet":             Q_C20_nilSet,
	"h6.Q_C20_zeroDiff":           Q_C20_zeroDiff,
	"h6.Q_C20_zeroSet":            Q_C20_zeroSet,
	"h6.Q_C20_zeroSetRest":        Q_C20_zeroSetRest,
	"h6.Q_C20_zeroSetWrite":       Q_C20_zeroSetWrite,
	"h6.Q_C20_zeroTable":          Q_C20_zeroTable,
	"h6.Q_C20_zeroValues":         Q_C20_zeroValues,
	"h6.Q_C21_aggregate":          Q_C21_aggregate,
	"h6.Q_C21_diff":               Q_C21_diff,
	"h6.Q_C21_empty":              Q_C21_empty,
	"h6.Q_C21_functions":          Q_C21_functions,
	"h6.Q_C21_map":                Q_C21_map,
	"h6.Q_C21_nilValues":          Q_C21_nilValues,
	"h6.Q_C21_ops":                Q_C21_ops,
	"h6.Q_C22_tree15":             Q_C22_tree15,
	"h6.Q_C22_tree7":              Q_C22_tree7,
	"h6.Q_C23_build":              Q_C23_build,
	"h6.Q_C23_buildSet":           Q_C23_buildSet,
	"h6.Q_C23_comparator":         Q_C23_comparator,
	"h6.Q_C23_diff":               Q_C23_diff,
	"h6.Q_C23_map":                Q_C23_map,
	"h6.Q_C23_prefixes":           Q_C23_prefixes,
	"h6.Q_C23_ranges":             Q_C23_ranges,
	"h6.Q_C23_walk":               Q_C23_walk,
	"h6.Q_C24_big":                Q_C24_big,
	"h6.Q_C24_copies":             Q_C24_copies,
	"h6.Q_C24_line":               Q_C24_line,
	"h6.Q_C24_map":                Q_C24_map,
	"h6.Q_C24_tree":               Q_C24_tree,
	"h6.Q_C24_twice":              Q_C24_twice,
	"h6.Q_C24_two":                Q_C24_two,
	"h6.T_C01_algebra21all":       T_C01_algebra21all,
	"h6.T_C01_algebra22wide":      T_C01_algebra22wide,
	"h6.T_C01_algebra23":          T_C01_algebra23,
	"h6.T_C01_algebra32":          T_C01_algebra32,
	"h6.T_C01_big":                T_C01_big,
	"h6.T_C01_leaves":             T_C01_leaves,
	"h6.T_C01_leaves8":            T_C01_leaves8,
	"h6.T_C01_stepsTwo":           T_C01_stepsTwo,
	"h6.T_C02_big":                T_C02_big,
	"h6.T_C02_canonical22wide":    T_C02_canonical22wide,
	"h6.T_C02_canonical32":        T_C02_canonical32,
	"h6.T_C02_equal32":            T_C02_equal32,
	"h6.T_C02_equalLeaves":        T_C02_equalLeaves,
	"h6.T_C03_big":                T_C03_big,
	"h6.T_C03_contains21":         T_C03_contains21,
	"h6.T_C03_contains23":         T_C03_contains23,
	"h6.T_C03_contains32":         T_C03_contains32,
	"h6.T_C04_big":                T_C04_big,
	"h6.T_C04_leaves":             T_C04_leaves,
	"h6.T_C04_ranges3all":         T_C04_ranges3all,
	"h6.T_C04_ranges3wide":        T_C04_ranges3wide,
	"h6.T_C04_ranges4":            T_C04_ranges4,
	"h6.T_C05_algebra2":           T_C05_algebra2,
	"h6.T_C05_contains3":          T_C05_contains3,
	"h6.T_C05_containsAddr3":      T_C05_containsAddr3,
	"h6.T_C05_set6":               T_C05_set6,
	"h6.T_C05_setAt3":             T_C05_setAt3,
	"h6.T_C06_big":                T_C06_big,
	"h6.T_C06_history3wide":       T_C06_history3wide,
	"h6.T_C06_history4wide":       T_C06_history4wide,
	"h6.T_C06_history5":           T_C06_history5,
	"h6.T_C07_big":                T_C07_big,
	"h6.T_C07_reserved3":          T_C07_reserved3,
	"h6.T_C07_reservedLeaves":     T_C07_reservedLeaves,
	"h6.T_C07_three1":             T_C07_three1,
	"h6.T_C07_two2":               T_C07_two2,
	"h6.T_C08_afterInserts3":      T_C08_afterInserts3,
	"h6.T_C08_big":                T_C08_big,
	"h6.T_C08_history3":           T_C08_history3,
	"h6.T_C08_history4":           T_C08_history4,
	"h6.T_C09_big":                T_C09_big,
	"h6.T_C09_match3all":          T_C09_match3all,
	"h6.T_C09_match4":             T_C09_match4,
	"h6.T_C10_big":                T_C10_big,
	"h6.T_C10_walk3all":           T_C10_walk3all,
	"h6.T_C10_walk4":              T_C10_walk4,
	"h6.T_C11_big":                T_C11_big,
	"h6.T_C11_derived32":          T_C11_derived32,
	"h6.T_C11_derivedAll":         T_C11_derivedAll,
	"h6.T_C11_line":               T_C11_line,
	"h6.T_C11_lines":              T_C11_lines,
	"h6.T_C11_separate22":         T_C11_separate22,
	"h6.T_C11_trees":              T_C11_trees,
	"h6.T_C12_big":                T_C12_big,
	"h6.T_C12_four":               T_C12_four,
	"h6.T_C12_line":               T_C12_line,
	"h6.T_C12_three":              T_C12_three,
	"h6.T_C12_tree15":             T_C12_tree15,
	"h6.T_C13_big":                T_C13_big,
	"h6.T_C13_four":               T_C13_four,
	"h6.T_C13_two":                T_C13_two,
	"h6.T_C14_big":                T_C14_big,
	"h6.T_C14_snapshots3all":      T_C14_snapshots3all,
	"h6.T_C14_snapshots4":         T_C14_snapshots4,
	"h6.T_C15_set3Writers":        T_C15_set3Writers,
	"h6.T_C15_tableWriters":       T_C15_tableWriters,
	"h6.T_C15_tableWritersAny":    T_C15_tableWritersAny,
	"h6.T_C18_parse8":             T_C18_parse8,
	"h6.T_C18_parseAround":        T_C18_parseAround,
	"h6.T_C21_aggregate":          T_C21_aggregate,
	"h6.T_C21_diff":               T_C21_diff,
	"h6.T_C21_map":                T_C21_map,
	"h6.T_C22_tree15":             T_C22_tree15,
	"h6.T_C24_big":                T_C24_big,
	"h6.T_C24_three":              T_C24_three,
}
