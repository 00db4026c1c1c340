"""What each check builds: which check program, which packages of /repo are
rewritten onto the controlled scheduler, and the time each tier may use."""

ROOT = ["", "pkg/backend", "pkg/cache/v2", "pkg/eviction", "pkg/stats"]
DIST = ["pkg/backend", "pkg/cache/v2", "internal/cluster", "internal/eventbus"]

CHECKS = {

    "C01": dict(main="c01", rewrite=["internal/cluster"], race=True, budget=dict(quick=50, thorough=400)),
    "C02": dict(main="c02", rewrite=["internal/cluster"], race=True, budget=dict(quick=50, thorough=400)),
    "C03": dict(main="c03", rewrite=["internal/cluster"], race=True, budget=dict(quick=50, thorough=400)),
    "C06": dict(main="c06", rewrite=["internal/eventbus"], race=True, budget=dict(quick=50, thorough=400)),
    "C07": dict(main="c07", rewrite=["internal/eventbus"], race=True, budget=dict(quick=50, thorough=400)),
    "C08": dict(main="c08", rewrite=["pkg/stats"], race=True, budget=dict(quick=50, thorough=400)),
    "C09": dict(main="c09", rewrite=[], budget=dict(quick=50, thorough=300)),
    "C10": dict(main="c10", rewrite=["pkg/client"], race=True, budget=dict(quick=50, thorough=400)),
    "C11": dict(main="c11", rewrite=[], budget=dict(quick=50, thorough=300)),
    "C12": dict(main="c12", rewrite=["pkg/client"], race=True, budget=dict(quick=50, thorough=400)),
    "C13": dict(main="c13", rewrite=["pkg/client"], race=True, budget=dict(quick=50, thorough=400)),
    "C14": dict(main="c14", rewrite=[], budget=dict(quick=50, thorough=300)),
    "C15": dict(main="c15", rewrite=["pkg/httpauth"], race=True, budget=dict(quick=62, thorough=400)),
    "C16": dict(main="c16", rewrite=[], budget=dict(quick=50, thorough=300)),
    "C38": dict(main="c38", rewrite=[], budget=dict(quick=50, thorough=300)),
    "C40": dict(main="c40", rewrite=[], budget=dict(quick=50, thorough=300)),
    "C17": dict(main="c17", rewrite=["pkg/cache/v2"], race=True, budget=dict(quick=50, thorough=400)),
    "C18": dict(main="c18", rewrite=["pkg/cache/v2"], race=True, budget=dict(quick=50, thorough=300)),
    "C19": dict(main="c19", rewrite=["pkg/eviction", "pkg/cache/v2"], race=True, budget=dict(quick=100, thorough=500)),
    "C20": dict(main="c20", rewrite=[], budget=dict(quick=50, thorough=300)),
    "C21": dict(main="c21", rewrite=ROOT, budget=dict(quick=75, thorough=500)),
    "C22": dict(main="c22", rewrite=ROOT, race=True, budget=dict(quick=100, thorough=600)),
    "C23": dict(main="c23", rewrite=ROOT, race=True, budget=dict(quick=100, thorough=700)),
    "C26": dict(main="c26", rewrite=[""], race=True, budget=dict(quick=75, thorough=500)),
    "C24": dict(main="c24", rewrite=ROOT, race=True, budget=dict(quick=100, thorough=600)),
    "C25": dict(main="c25", rewrite=ROOT, race=True, budget=dict(quick=100, thorough=600)),
    "C27": dict(main="c27", rewrite=ROOT, budget=dict(quick=75, thorough=300)),
    "C43": dict(main="c43", rewrite=ROOT + DIST[2:], budget=dict(quick=75, thorough=300)),
    "C44": dict(main="c44", rewrite=ROOT + DIST[2:], race=True, budget=dict(quick=100, thorough=600)),
    "C45": dict(main="c45", rewrite=ROOT + DIST[2:], race=True, budget=dict(quick=100, thorough=600)),
    "C46": dict(main="c46", rewrite=ROOT + DIST[2:], race=True, budget=dict(quick=100, thorough=600)),
    "C47": dict(main="c47", rewrite=ROOT + DIST[2:], race=True, budget=dict(quick=100, thorough=600)),
    "C48": dict(main="c48", rewrite=[], budget=dict(quick=50, thorough=300)),
    "C28": dict(main="c28", rewrite=DIST, race=True, budget=dict(quick=100, thorough=600)),
    "C29": dict(main="c29", rewrite=DIST, race=True, budget=dict(quick=100, thorough=600)),
    "C30": dict(main="c30", rewrite=DIST, race=True, budget=dict(quick=100, thorough=600)),
    "C31": dict(main="c31", rewrite=DIST, race=True, budget=dict(quick=100, thorough=600)),
    "C04": dict(main="c04", rewrite=DIST, race=True, budget=dict(quick=100, thorough=600)),
    "C05": dict(main="c05", rewrite=DIST, race=True, budget=dict(quick=100, thorough=600)),
    "C34": dict(main="c34", rewrite=DIST, race=True, budget=dict(quick=100, thorough=600)),
    "C35": dict(main="c35", rewrite=[], budget=dict(quick=150, thorough=600)),
    "C36": dict(main="c36", rewrite=DIST, budget=dict(quick=75, thorough=600)),
    "C37": dict(main="c37", rewrite=[], budget=dict(quick=150, thorough=600)),
    "C39": dict(main="c39", rewrite=[], server=True, budget=dict(quick=150, thorough=600)),
    "C33": dict(main="c33", rewrite=DIST, race=True, budget=dict(quick=100, thorough=600)),
    "C32": dict(main="c32", rewrite=DIST, race=True, budget=dict(quick=100, thorough=600)),
    "C41": dict(main="c41", rewrite=[], budget=dict(quick=100, thorough=600)),
    "C42": dict(main="c42", rewrite=[], budget=dict(quick=50, thorough=300)),
}
