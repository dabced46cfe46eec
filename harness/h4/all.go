package h4

// All maps harness names to functions (generated by gen.sh).
var All = map[string]func(){
	"h4.Q_C01_algebra11":          Q_C01_algebra11,
	"h4.Q_C01_algebra11wide":      Q_C01_algebra11wide,
	"h4.Q_C01_algebra12":          Q_C01_algebra12,
	"h4.Q_C01_algebra21":          Q_C01_algebra21,
	"h4.Q_C01_algebra22":          Q_C01_algebra22,
	"h4.Q_C01_algebraGap":         Q_C01_algebraGap,
	"h4.Q_C01_big":                Q_C01_big,
	"h4.Q_C01_bigTwo":             Q_C01_bigTwo,
	"h4.Q_C01_leaves":             Q_C01_leaves,
	"h4.Q_C01_operands":           Q_C01_operands,
	"h4.Q_C01_steps":              Q_C01_steps,
	"h4.Q_C01_unionFree":          Q_C01_unionFree,
	"h4.Q_C02_big":                Q_C02_big,
	"h4.Q_C02_canonical11":        Q_C02_canonical11,
	"h4.Q_C02_canonical22":        Q_C02_canonical22,
	"h4.Q_C02_canonicalGap":       Q_C02_canonicalGap,
	"h4.Q_C02_canonicalInsert":    Q_C02_canonicalInsert,
	"h4.Q_C02_canonicalSingle":    Q_C02_canonicalSingle,
	"h4.Q_C02_equal11":            Q_C02_equal11,
	"h4.Q_C02_equal22":            Q_C02_equal22,
	"h4.Q_C02_equalLeaves":        Q_C02_equalLeaves,
	"h4.Q_C02_halves":             Q_C02_halves,
	"h4.Q_C02_leaves":             Q_C02_leaves,
	"h4.Q_C02_order":              Q_C02_order,
	"h4.Q_C02_steps":              Q_C02_steps,
	"h4.Q_C02_stepsTwo":           Q_C02_stepsTwo,
	"h4.Q_C02_undo":               Q_C02_undo,
	"h4.Q_C03_big":                Q_C03_big,
	"h4.Q_C03_contains11":         Q_C03_contains11,
	"h4.Q_C03_contains22":         Q_C03_contains22,
	"h4.Q_C03_containsMissing":    Q_C03_containsMissing,
	"h4.Q_C03_counts":             Q_C03_counts,
	"h4.Q_C03_countsFree":         Q_C03_countsFree,
	"h4.Q_C03_leaves":             Q_C03_leaves,
	"h4.Q_C03_many":               Q_C03_many,
	"h4.Q_C03_numAddresses":       Q_C03_numAddresses,
	"h4.Q_C03_numAddressesPrefix": Q_C03_numAddressesPrefix,
	"h4.Q_C03_numAddressesRange":  Q_C03_numAddressesRange,
	"h4.Q_C03_prefixContains":     Q_C03_prefixContains,
	"h4.Q_C03_prefixContainsNear": Q_C03_prefixContainsNear,
	"h4.Q_C03_prefixCounts":       Q_C03_prefixCounts,
	"h4.Q_C03_steps":              Q_C03_steps,
	"h4.Q_C04_addresses":          Q_C04_addresses,
	"h4.Q_C04_big":                Q_C04_big,
	"h4.Q_C04_leaves":             Q_C04_leaves,
	"h4.Q_C04_many":               Q_C04_many,
	"h4.Q_C04_prefixes":           Q_C04_prefixes,
	"h4.Q_C04_ranges1":            Q_C04_ranges1,
	"h4.Q_C04_ranges2":            Q_C04_ranges2,
	"h4.Q_C04_ranges3":            Q_C04_ranges3,
	"h4.Q_C04_ranges4":            Q_C04_ranges4,
	"h4.Q_C04_rangesGap":          Q_C04_rangesGap,
	"h4.Q_C04_steps":              Q_C04_steps,
	"h4.Q_C04_stop":               Q_C04_stop,
	"h4.Q_C04_top":                Q_C04_top,
	"h4.Q_C05_algebra":            Q_C05_algebra,
	"h4.Q_C05_contains":           Q_C05_contains,
	"h4.Q_C05_containsAddr":       Q_C05_containsAddr,
	"h4.Q_C05_from":               Q_C05_from,
	"h4.Q_C05_minus":              Q_C05_minus,
	"h4.Q_C05_minusPlus":          Q_C05_minusPlus,
	"h4.Q_C05_plus":               Q_C05_plus,
	"h4.Q_C05_prefix":             Q_C05_prefix,
	"h4.Q_C05_set":                Q_C05_set,
	"h4.Q_C05_setAt":              Q_C05_setAt,
	"h4.Q_C06_big":                Q_C06_big,
	"h4.Q_C06_build":              Q_C06_build,
	"h4.Q_C06_bulk":               Q_C06_bulk,
	"h4.Q_C06_fork":               Q_C06_fork,
	"h4.Q_C06_history2":           Q_C06_history2,
	"h4.Q_C06_history3":           Q_C06_history3,
	"h4.Q_C06_history3all":        Q_C06_history3all,
	"h4.Q_C06_history4":           Q_C06_history4,
	"h4.Q_C06_leaves":             Q_C06_leaves,
	"h4.Q_C06_operands":           Q_C06_operands,
	"h4.Q_C06_steps":              Q_C06_steps,
	"h4.Q_C07_big":                Q_C07_big,
	"h4.Q_C07_gap":                Q_C07_gap,
	"h4.Q_C07_invalid":            Q_C07_invalid,
	"h4.Q_C07_leaves":             Q_C07_leaves,
	"h4.Q_C07_one":                Q_C07_one,
	"h4.Q_C07_oneNone":            Q_C07_oneNone,
	"h4.Q_C07_repeat":             Q_C07_repeat,
	"h4.Q_C07_reserved2":          Q_C07_reserved2,
	"h4.Q_C07_reserved3":          Q_C07_reserved3,
	"h4.Q_C07_reservedLeaves":     Q_C07_reservedLeaves,
	"h4.Q_C07_steps":              Q_C07_steps,
	"h4.Q_C07_two":                Q_C07_two,
	"h4.Q_C07_two2":               Q_C07_two2,
	"h4.Q_C08_afterInserts":       Q_C08_afterInserts,
	"h4.Q_C08_big":                Q_C08_big,
	"h4.Q_C08_history1":           Q_C08_history1,
	"h4.Q_C08_history2":           Q_C08_history2,
	"h4.Q_C08_history3":           Q_C08_history3,
	"h4.Q_C08_line":               Q_C08_line,
	"h4.Q_C08_many":               Q_C08_many,
	"h4.Q_C08_nilValues":          Q_C08_nilValues,
	"h4.Q_C08_removes":            Q_C08_removes,
	"h4.Q_C08_tree":               Q_C08_tree,
	"h4.Q_C08_wide":               Q_C08_wide,
	"h4.Q_C09_address":            Q_C09_address,
	"h4.Q_C09_big":                Q_C09_big,
	"h4.Q_C09_far":                Q_C09_far,
	"h4.Q_C09_line":               Q_C09_line,
	"h4.Q_C09_lineAndOne":         Q_C09_lineAndOne,
	"h4.Q_C09_match1":             Q_C09_match1,
	"h4.Q_C09_match2":             Q_C09_match2,
	"h4.Q_C09_match3":             Q_C09_match3,
	"h4.Q_C09_match4":             Q_C09_match4,
	"h4.Q_C09_nilValues":          Q_C09_nilValues,
	"h4.Q_C09_removed":            Q_C09_removed,
	"h4.Q_C09_tree":               Q_C09_tree,
	"h4.Q_C09_wide":               Q_C09_wide,
	"h4.Q_C10_big":                Q_C10_big,
	"h4.Q_C10_line":               Q_C10_line,
	"h4.Q_C10_many":               Q_C10_many,
	"h4.Q_C10_nilValues":          Q_C10_nilValues,
	"h4.Q_C10_removed":            Q_C10_removed,
	"h4.Q_C10_stop":               Q_C10_stop,
	"h4.Q_C10_tree":               Q_C10_tree,
	"h4.Q_C10_walk2":              Q_C10_walk2,
	"h4.Q_C10_walk3":              Q_C10_walk3,
	"h4.Q_C10_walk4":              Q_C10_walk4,
	"h4.Q_C10_wide":               Q_C10_wide,
	"h4.Q_C11_big":                Q_C11_big,
	"h4.Q_C11_derived":            Q_C11_derived,
	"h4.Q_C11_derived3":           Q_C11_derived3,
	"h4.Q_C11_empty":              Q_C11_empty,
	"h4.Q_C11_line":               Q_C11_line,
	"h4.Q_C11_lines":              Q_C11_lines,
	"h4.Q_C11_nil":                Q_C11_nil,
	"h4.Q_C11_nilValues":          Q_C11_nilValues,
	"h4.Q_C11_separate11":         Q_C11_separate11,
	"h4.Q_C11_separate21":         Q_C11_separate21,
	"h4.Q_C11_separate22":         Q_C11_separate22,
	"h4.Q_C11_stop":               Q_C11_stop,
	"h4.Q_C11_tree":               Q_C11_tree,
	"h4.Q_C11_wide":               Q_C11_wide,
	"h4.Q_C12_big":                Q_C12_big,
	"h4.Q_C12_far":                Q_C12_far,
	"h4.Q_C12_line":               Q_C12_line,
	"h4.Q_C12_nilValues":          Q_C12_nilValues,
	"h4.Q_C12_removed":            Q_C12_removed,
	"h4.Q_C12_three":              Q_C12_three,
	"h4.Q_C12_tree7":              Q_C12_tree7,
	"h4.Q_C12_two":                Q_C12_two,
	"h4.Q_C13_big":                Q_C13_big,
	"h4.Q_C13_diff":               Q_C13_diff,
	"h4.Q_C13_line":               Q_C13_line,
	"h4.Q_C13_nil":                Q_C13_nil,
	"h4.Q_C13_nilValues":          Q_C13_nilValues,
	"h4.Q_C13_removed":            Q_C13_removed,
	"h4.Q_C13_three":              Q_C13_three,
	"h4.Q_C13_tree":               Q_C13_tree,
	"h4.Q_C13_two":                Q_C13_two,
	"h4.Q_C13_wide":               Q_C13_wide,
	"h4.Q_C14_big":                Q_C14_big,
	"h4.Q_C14_build":              Q_C14_build,
	"h4.Q_C14_derived":            Q_C14_derived,
	"h4.Q_C14_fork":               Q_C14_fork,
	"h4.Q_C14_line":               Q_C14_line,
	"h4.Q_C14_nilValues":          Q_C14_nilValues,
	"h4.Q_C14_snapshots2":         Q_C14_snapshots2,
	"h4.Q_C14_snapshots3":         Q_C14_snapshots3,
	"h4.Q_C14_snapshots4":         Q_C14_snapshots4,
	"h4.Q_C14_tree":               Q_C14_tree,
	"h4.Q_C15_derived":            Q_C15_derived,
	"h4.Q_C15_readers":            Q_C15_readers,
	"h4.Q_C15_setABA":             Q_C15_setABA,
	"h4.Q_C15_setReader":          Q_C15_setReader,
	"h4.Q_C15_setReads":           Q_C15_setReads,
	"h4.Q_C15_setWriters":         Q_C15_setWriters,
	"h4.Q_C15_setWritersAny":      Q_C15_setWritersAny,
	"h4.Q_C15_setsCross":          Q_C15_setsCross,
	"h4.Q_C15_tableABA":           Q_C15_tableABA,
	"h4.Q_C15_tableReader":        Q_C15_tableReader,
	"h4.Q_C15_tableReads":         Q_C15_tableReads,
	"h4.Q_C15_tableWriters":       Q_C15_tableWriters,
	"h4.Q_C16_bytes":              Q_C16_bytes,
	"h4.Q_C16_fresh":              Q_C16_fresh,
	"h4.Q_C16_input":              Q_C16_input,
	"h4.Q_C16_ipnetSizes":         Q_C16_ipnetSizes,
	"h4.Q_C16_mapped":             Q_C16_mapped,
	"h4.Q_C16_mask":               Q_C16_mask,
	"h4.Q_C16_maskLength":         Q_C16_maskLength,
	"h4.Q_C16_maskLengthAny":      Q_C16_maskLengthAny,
	"h4.Q_C16_netip":              Q_C16_netip,
	"h4.Q_C16_netmask":            Q_C16_netmask,
	"h4.Q_C16_netmaskBytes":       Q_C16_netmaskBytes,
	"h4.Q_C16_netmaskPrefix":      Q_C16_netmaskPrefix,
	"h4.Q_C16_order":              Q_C16_order,
	"h4.Q_C16_prefixUint32":       Q_C16_prefixUint32,
	"h4.Q_C16_slice":              Q_C16_slice,
	"h4.Q_C17_broadcast":          Q_C17_broadcast,
	"h4.Q_C17_equal":              Q_C17_equal,
	"h4.Q_C17_halves":             Q_C17_halves,
	"h4.Q_C17_host":               Q_C17_host,
	"h4.Q_C17_num":                Q_C17_num,
	"h4.Q_C17_numLong":            Q_C17_numLong,
	"h4.Q_C17_parts":              Q_C17_parts,
	"h4.Q_C17_range":              Q_C17_range,
	"h4.Q_C18_address":            Q_C18_address,
	"h4.Q_C18_mapped":             Q_C18_mapped,
	"h4.Q_C18_mask":               Q_C18_mask,
	"h4.Q_C18_parse7":             Q_C18_parse7,
	"h4.Q_C18_parseAround":        Q_C18_parseAround,
	"h4.Q_C18_parsePrefix":        Q_C18_parsePrefix,
	"h4.Q_C18_prefix":             Q_C18_prefix,
	"h4.Q_C18_prefixAddr":         Q_C18_prefixAddr,
	"h4.Q_C18_range":              Q_C18_range,
	"h4.Q_C18_set":                Q_C18_set,
	"h4.Q_C20_nilPrefix":          Q_C20_nilPrefix,
	"h4.Q_C20_nilSet":             Q_C20_nilSet,
	"h4.Q_C20_zeroCounts":         Q_C20_zeroCounts,
	"h4.Q_C20_zeroDiff":           Q_C20_zeroDiff,
	"h4.Q_C20_zeroSet":            Q_C20_zeroSet,
	"h4.Q_C20_zeroSetRest":        Q_C20_zeroSetRest,
	"h4.Q_C20_zeroSetWrite":       Q_C20_zeroSetWrite,
	"h4.Q_C20_zeroTable":          Q_C20_zeroTable,
	"h4.Q_C20_zeroValues":         Q_C20_zeroValues,
	"h4.Q_C21_aggregate":          Q_C21_aggregate,
	"h4.Q_C21_diff":               Q_C21_diff,
	"h4.Q_C21_empty":              Q_C21_empty,
	"h4.Q_C21_functions":          Q_C21_functions,
	"h4.Q_C21_map":                Q_C21_map,
	"h4.Q_C21_nilValues":          Q_C21_nilValues,
	"h4.Q_C21_ops":                Q_C21_ops,
	"h4.Q_C22_tree15":             Q_C22_tree15,
	"h4.Q_C22_tree7":              Q_C22_tree7,
	"h4.Q_C23_addresses":          Q_C23_addresses,
	"h4.Q_C23_build":              Q_C23_build,
	"h4.Q_C23_buildSet":           Q_C23_buildSet,
	"h4.Q_C23_comparator":         Q_C23_comparator,
	"h4.Q_C23_diff":               Q_C23_diff,
	"h4.Q_C23_map":                Q_C23_map,
	"h4.Q_C23_prefixes":           Q_C23_prefixes,
	"h4.Q_C23_ranges":             Q_C23_ranges,
	"h4.Q_C23_walk":               Q_C23_walk,
	"h4.Q_C24_big":                Q_C24_big,
	"h4.Q_C24_copies":             Q_C24_copies,
	"h4.Q_C24_line":               Q_C24_line,
	"h4.Q_C24_map":                Q_C24_map,
	"h4.Q_C24_tree":               Q_C24_tree,
	"h4.Q_C24_twice":              Q_C24_twice,
	"h4.Q_C24_two":                Q_C24_two,
	"h4.T_C01_algebra21all":       T_C01_algebra21all,
	"h4.T_C01_algebra22wide":      T_C01_algebra22wide,
	"h4.T_C01_algebra23":          T_C01_algebra23,
	"h4.T_C01_algebra32":          T_C01_algebra32,
	"h4.T_C01_big":                T_C01_big,
	"h4.T_C01_leaves":             T_C01_leaves,
	"h4.T_C01_leaves8":            T_C01_leaves8,
	"h4.T_C01_stepsTwo":           T_C01_stepsTwo,
	"h4.T_C02_big":                T_C02_big,
	"h4.T_C02_canonical22wide":    T_C02_canonical22wide,
	"h4.T_C02_canonical32":        T_C02_canonical32,
	"h4.T_C02_equal32":            T_C02_equal32,
	"h4.T_C02_equalLeaves":        T_C02_equalLeaves,
	"h4.T_C03_big":                T_C03_big,
	"h4.T_C03_contains21":         T_C03_contains21,
	"h4.T_C03_contains23":         T_C03_contains23,
	"h4.T_C03_contains32":         T_C03_contains32,
	"h4.T_C04_big":                T_C04_big,
	"h4.T_C04_leaves":             T_C04_leaves,
	"h4.T_C04_ranges3all":         T_C04_ranges3all,
	"h4.T_C04_ranges3wide":        T_C04_ranges3wide,
	"h4.T_C04_ranges4":            T_C04_ranges4,
	"h4.T_C05_algebra2":           T_C05_algebra2,
	"h4.T_C05_contains3":          T_C05_contains3,
	"h4.T_C05_containsAddr3":      T_C05_containsAddr3,
	"h4.T_C05_set6":               T_C05_set6,
	"h4.T_C05_setAt3":             T_C05_setAt3,
	"h4.T_C06_big":                T_C06_big,
	"h4.T_C06_history3wide":       T_C06_history3wide,
	"h4.T_C06_history4wide":       T_C06_history4wide,
	"h4.T_C06_history5":           T_C06_history5,
	"h4.T_C07_big":                T_C07_big,
	"h4.T_C07_reserved3":          T_C07_reserved3,
	"h4.T_C07_reservedLeaves":     T_C07_reservedLeaves,
	"h4.T_C07_three1":             T_C07_three1,
	"h4.T_C07_two2":               T_C07_two2,
	"h4.T_C08_afterInserts3":      T_C08_afterInserts3,
	"h4.T_C08_big":                T_C08_big,
	"h4.T_C08_history3":           T_C08_history3,
	"h4.T_C08_history4":           T_C08_history4,
	"h4.T_C09_big":                T_C09_big,
	"h4.T_C09_match3all":          T_C09_match3all,
	"h4.T_C09_match4":             T_C09_match4,
	"h4.T_C10_big":                T_C10_big,
	"h4.T_C10_walk3all":           T_C10_walk3all,
	"h4.T_C10_walk4":              T_C10_walk4,
	"h4.T_C11_big":                T_C11_big,
	"h4.T_C11_derived32":          T_C11_derived32,
	"h4.T_C11_derivedAll":         T_C11_derivedAll,
	"h4.T_C11_line":               T_C11_line,
	"h4.T_C11_lines":              T_C11_lines,
	"h4.T_C11_separate22":         T_C11_separate22,
	"h4.T_C11_trees":              T_C11_trees,
	"h4.T_C12_big":                T_C12_big,
	"h4.T_C12_four":               T_C12_four,
	"h4.T_C12_line":               T_C12_line,
	"h4.T_C12_three":              T_C12_three,
	"h4.T_C12_tree15":             T_C12_tree15,
	"h4.T_C13_big":                T_C13_big,
	"h4.T_C13_four":               T_C13_four,
	"h4.T_C13_two":                T_C13_two,
	"h4.T_C14_big":                T_C14_big,
	"h4.T_C14_snapshots3all":      T_C14_snapshots3all,
	"h4.T_C14_snapshots4":         T_C14_snapshots4,
	"h4.T_C15_set3Writers":        T_C15_set3Writers,
	"h4.T_C15_tableWriters":       T_C15_tableWriters,
	"h4.T_C15_tableWritersAny":    T_C15_tableWritersAny,
	"h4.T_C21_aggregate":          T_C21_aggregate,
	"h4.T_C21_diff":               T_C21_diff,
	"h4.T_C21_map":                T_C21_map,
	"h4.T_C22_tree15":             T_C22_tree15,
	"h4.T_C24_big":                T_C24_big,
	"h4.T_C24_three":              T_C24_three,
}
