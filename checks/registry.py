"""property id -> deciding functions and floors"""
from engine.interp import Engine
from .front import Anchor
from . import p_front as F
from . import p_elf as E
from . import p_mach as M


def engine(dump):
    return Engine(dump)


PROPS = {
    "F01": dict(fns=[F.p_merge], floor=40),
    "F02": dict(fns=[F.p_imports], floor=40),
    "F03": dict(fns=[F.p_define_admission], floor=10),
    "F04": dict(fns=[F.p_define_content], floor=20),
    "F05": dict(fns=[F.p_links], floor=50),
    "F06": dict(fns=[F.p_atomic], floor=50),
    "F07": dict(fns=[F.p_gate], floor=20),
    "F08": dict(fns=[F.p_dispatch], floor=8),
    "F09": dict(fns=[F.p_write], floor=4),
    "F10": dict(fns=[F.p_builders], floor=40),
    "F11": dict(fns=[F.p_sugar], floor=20),
    "E01": dict(fns=[E.p_symbols], floor=60),
    "E02": dict(fns=[E.p_sections], floor=60),
    "E03": dict(fns=[E.p_contents], floor=20),
    "E04": dict(fns=[E.p_order], floor=10),
    "E05": dict(fns=[E.p_types], floor=60),
    "E06": dict(fns=[E.p_relocs], floor=30),
    "E07": dict(fns=[E.p_layout], floor=30),
    "E08": dict(fns=[E.p_counts], floor=20),
    "E09": dict(fns=[E.p_strings], floor=10),
    "E10": dict(fns=[E.p_emitted], floor=5),
    "M01": dict(fns=[M.p_symbols], floor=30),
    "M02": dict(fns=[M.p_sections], floor=30),
    "M03": dict(fns=[M.p_places], floor=30),
    "M04": dict(fns=[M.p_types], floor=30),
    "M05": dict(fns=[M.p_relocs], floor=20),
    "M06": dict(fns=[M.p_tables], floor=10),
    "M07": dict(fns=[M.p_commands], floor=30),
    "M08": dict(fns=[M.p_emitted], floor=4),
    "T02": dict(fns=[M.p_target], floor=20),
    "T01": dict(fns=[E.p_target], floor=60),
}
