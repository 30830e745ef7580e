from .c05 import C as C05


class C(C05):
    id = "C06"
    technique = "TLA+ model of compound answers under edits, position-by-position matching (TLC exhaustive and simulated); states replayed into is_equiv"
    caps = (210, 160, 150, 130, 150)
    tops = '{"par", "brk"}'


CHECK = C()
