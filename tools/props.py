"""What each property is decided with: bundles of contracts (all obligations of a bundle must be discharged), and the
searches over the real code that replay a failed obligation or stand in where the proof gives no answer."""

# name -> contracts (order matters), cfgs
BUNDLES = {
    "client": dict(contracts=["lib", "receive", "handle", "types", "client_send", "client", "client_receive"], cfg=["debug_assertions", "feature=stream"],
                   extra_preludes=["94_client_history.rs"]),
    "server": dict(contracts=["lib", "receive", "handle", "types", "server_send", "server_receive", "server"], cfg=["debug_assertions", "feature=stream"],
                   extra_preludes=["95_server_history.rs"]),
    "handle": dict(contracts=["handle"], cfg=["debug_assertions"]),
    "tags-debug": dict(contracts=["tag_generator"], cfg=["debug_assertions"]),
    "config": dict(contracts=["config"], cfg=["debug_assertions"]),
    "util": dict(contracts=["util"], cfg=["debug_assertions"]),
    "proxy": dict(contracts=["lib", "receive", "handle", "types", "client_send", "client", "client_receive", "server_send", "server_receive", "server", "stream", "config", "util", "proxy", "main"],
                  cfg=["debug_assertions", "feature=stream"], extra_preludes=["91_net.rs", "92_imap_next.rs", "93_main.rs"]),
    "stream": dict(contracts=["lib", "stream"], cfg=["debug_assertions", "feature=stream"], extra_preludes=["91_net.rs"]),
    "tags-release": dict(contracts=["tag_generator"], cfg=[]),
}
# types whose derived equality the contracts rely on
DERIVES = {t: ["Eq", "PartialEq"] for t in ("RawHandle", "CommandHandle", "ResponseHandle")}
# name -> cargo package in /verif/harness, arguments after the seconds
SEARCHES = {
    "client": dict(package="hcore", extra=["client"]),
    "server": dict(package="hcore", extra=["server"]),
    "core": dict(package="hcore", extra=[]),
    "split-client": dict(package="hcore", extra=["split-client"]),
    "split-server": dict(package="hcore", extra=["split-server"]),
    "handles": dict(package="hunit", extra=["handles"]),
    "endpoints": dict(package="hunit", extra=["endpoints"]),
    "tags": dict(package="hunit", extra=["tags"]),
    "config": dict(package="hunit", extra=["config"]),
    "net-plain": dict(package="hnet", extra=["plain"]),
    "net-tls": dict(package="hnet", extra=["tls"]),
    "proxy-forward": dict(package="hproxy", extra=["forward"]),
    "proxy-chaos": dict(package="hproxy", extra=["chaos"]),
    "proxy-secure": dict(package="hproxy", extra=["secure"]),
    "proxy-pem": dict(package="hproxy", extra=["pem"]),
    "proxy-program": dict(package="hproxy", also=["proxy-bin"], extra=["program"]),
    "deep-handles": dict(package="hunit", extra=["deep-handles"]),
    "deep-tags": dict(package="hunit", extra=["deep-tags"]),
}
_C, _S, _CS = ["client"], ["server"], ["client", "server"]
PROPS = {
    "F01": dict(bundles=_CS, search=["split-client", "split-server", "core"]),
    **{p: dict(bundles=_CS, search=["core"]) for p in ("F02", "F03", "F05")},
    "F04": dict(bundles=_CS, search=["core"]),
    **{f"C0{i}": dict(bundles=_C, search=["client"]) for i in range(1, 9)},
    **{f"S0{i}": dict(bundles=_S, search=["server"]) for i in range(1, 7)},
    "H01": dict(bundles=["handle", "client", "server"], search=["handles", "endpoints", "core"], deep=["deep-handles"]),
    "T01": dict(bundles=["stream"], search=["net-plain"]),
    "T02": dict(bundles=["stream"], search=["net-tls"]),
    "T03": dict(bundles=["stream"], search=["net-plain", "net-tls"]),
    "P01": dict(bundles=["util", "proxy"], search=["proxy-forward", "proxy-chaos"]),
    "P02": dict(bundles=["proxy"], search=["proxy-forward", "proxy-chaos"]),
    "P03": dict(bundles=["proxy"], search=["proxy-chaos", "proxy-program"]),
    "P04": dict(bundles=["config", "proxy"], search=["config", "proxy-program"]),
    "P05": dict(bundles=["proxy"], search=["proxy-secure"]),
    "P06": dict(bundles=["util"], search=["proxy-pem"]),
    "H02": dict(bundles=["tags-debug", "tags-release"], search=["tags"], deep=["deep-tags"]),
}

TECHNIQUE = "contract-based deductive verification (Verus) of the real functions, contracts spliced into the source on every run"
_B = "Trusted: Verus/Z3, the extractor's logged edits, assumed contracts of imap-codec/imap-types/std items (listed in the evidence). If code is reshaped so that contracts no longer attach, a bounded search of the real code stands in and the evidence says so."
NOTES = {
    "F": "All inputs, all splits, no bound: receive.rs and both receive paths refine a frame-step specification. " + _B,
    "C": "All histories: every poll and call of the client is proved equal to one step of a functional model, and over these contracts a theorem says what every history looks like from outside. " + _B,
    "S": "All histories: every poll and call of the server is proved equal to one step of a functional model, and over these contracts a theorem says what every history looks like from outside. " + _B,
    "H": "All call sequences and threads, via the fetch_add contract. " + _B,
    "T": "All schedules, all cancellation points, all socket behaviours: every suspension point of the driver is modelled as a stop (second copy of each async function), the socket and TLS as assumed contracts over ghost byte logs. " + _B,
    "P": "Proxy functions over the contracts of client, server and stream. " + _B,
}
NOT_APPLICABLE = {}
