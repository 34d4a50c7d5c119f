from . import checks_cont as cc

CHECKS = {}
for c in (cc.C01, cc.C02, cc.C03, cc.C04, cc.C05):
    CHECKS[c.pid] = c
from . import checks_solver as cs
for c in (cs.S01, cs.S02, cs.S03):
    CHECKS[c.pid] = c
from . import checks_store as ct
for c in (ct.P01, ct.P02, ct.P03):
    CHECKS[c.pid] = c
from . import checks_resume as cr
CHECKS['P04'] = cr.P04
from . import checks_force as cf
for c in (cf.H01, cf.H02):
    CHECKS[c.pid] = c
from . import checks_system as cy
CHECKS['V01'] = cy.V01
from . import checks_e2e as ce
for c in (ce.E01, ce.E02, ce.E03, ce.E04, ce.E05):
    CHECKS[c.pid] = c
from . import checks_iso as ci
for c in (ci.C06, ci.C07):
    CHECKS[c.pid] = c
from . import checks_linear as cl
for c in (cl.H03, cl.E06, cl.E07):
    CHECKS[c.pid] = c
