package hip

// All maps harness names to functions (generated by gen.sh).
var All = map[string]func(){
	"hip.Q_C19_ipnet":                 Q_C19_ipnet,
	"hip.Q_C19_netip":                 Q_C19_netip,
	"hip.Q_C19_netmask":               Q_C19_netmask,
	"hip.Q_C19_parts":                 Q_C19_parts,
	"hip.Q_C19_prefixFromAddressMask": Q_C19_prefixFromAddressMask,
	"hip.Q_C19_rangeFromAddresses":    Q_C19_rangeFromAddresses,
	"hip.Q_C19_text":                  Q_C19_text,
}
