"""property id -> (rule, floor on decided obligations, explanation)"""
from . import rules_math as m
from . import rules_rigid5 as rr5
from . import rules_usd as usd
from . import rules_state as state
from . import rules_eff as eff
from . import rules_geom2 as geom2
from . import rules_scene2 as scn2
from . import rules_scene as scn
from . import rules_soft4 as s4
from . import rules_math2 as math2
from . import rules_rigid4 as r4
from . import rules_misc as misc
from . import rules_ik as ik
from . import rules_rigid as rr
from . import rules_rigid2 as r2
from . import rules_geom as g
from . import rules_soft as s
from . import rules_soft2 as s2
from . import rules_rigid3 as r3
from . import rules_prox as px, rules_soft3 as s3

EXPL = ('gated value-graph abstract interpretation of the functions below from their syntax trees (no execution of the analysed '
        'code): one abstract state per program point, joins as gated phi terms, loops summarised for a generic iteration, calls '
        'inlined; each obligation compares the value number the code computes with the value number of the specification, by '
        'ring normal form and, when the normal forms differ, by random interpretation of the value graphs')

RULES = {
    'M01': (m.M01, 9, EXPL),
    'M02': (m.M02, 4, EXPL),
    'M03': (m.M03, 2, EXPL),
    'M04': (m.M04, 2, EXPL),
    'M05': (m.M05, 3, EXPL),
    'M06': (m.M06, 6, EXPL),
    'R01': (rr.R01, 1, EXPL),
    'R02': (rr.R02, 2, EXPL),
    'R03': (rr.R03, 5, EXPL),
    'R04': (rr.R04, 2, EXPL),
    'R05': (rr.R05, 2, EXPL),
    'R06': (rr.R06, 5, EXPL),
    'R08': (r2.R08, 2, EXPL),
    'R09': (r2.R09, 5, EXPL),
    'R16': (r2.R16, 11, EXPL),
    'R10': (r2.R10, 2, EXPL),
    'R11': (r2.R11, 11, EXPL),
    'R14': (r2.R14, 2, EXPL),
    'G01': (g.G01, 60, EXPL),
    'G02': (g.G02, 2, EXPL),
    'G03': (g.G03, 20, EXPL),
    'G04': (g.G04, 2, EXPL),
    'S01': (s.S01, 6, EXPL),
    'S02': (s.S02, 21, EXPL),
    'S03': (s.S03, 480, EXPL),
    'S04': (s.S04, 38, EXPL),
    'S05': (s.S05, 69, EXPL),
    'S06': (s3.S06, 35, EXPL),
    'S07': (s2.S07, 381, EXPL),
    'S08': (s2.S08, 2, EXPL),
    'S09': (s2.S09, 2, EXPL),
    'R15': (r3.R15, 22, EXPL),
    'P01': (px.P01, 25, EXPL),
    'P02': (px.P02, 2, EXPL),
    'P03': (px.P03, 2, EXPL),
    'R07': (rr.R07, 3, EXPL),
    'K01': (ik.K01, 66, EXPL),
    'K02': (ik.K02, 39, EXPL),
    'G05': (misc.G05, 10, EXPL),
    'R17': (r4.R17, 42, EXPL),
    'M07': (math2.M07, 21, EXPL),
    'M08': (math2.M08, 16, EXPL),
    'S10': (s4.S10, 51, EXPL),
    'R12': (s4.R12, 600, EXPL),
    'R18': (scn.R18, 450, EXPL),
    'R19': (scn.R19, 150, EXPL),
    'R20': (scn.R20, 360, EXPL),
    'R21': (scn.R21, 90, EXPL),
    'R22': (scn.R22, 36, EXPL),
    'R23': (scn2.R23, 36, EXPL),
    'R24': (scn2.R24, 33, EXPL),
    'R25': (scn2.R25, 33, EXPL),
    'G06': (geom2.G06, 15, EXPL),
    'E01': (eff.E01, 45, EXPL),
    'E02': (state.E02, 221, EXPL),
    'U01': (usd.U01, 15, EXPL),
    'R26': (rr5.R26, 20, EXPL),
}
