"""Which harness package decides which property, and how many processes run."""

CHECKS = {
    "M01": {"pkg": "mt"},
    "M02": {"pkg": "mt"},
    "M03": {"pkg": "mt"},
    "M04": {"pkg": "mt"},
    "M05": {"pkg": "mt"},
    "M06": {"pkg": "mt"},
    "M07": {"pkg": "mt", "level": "fault_enumeration"},
    "M08": {"pkg": "mt"},
    "M09": {"pkg": "mt", "race": True},
    "M10": {"pkg": "mt"},
    "D01": {"pkg": "dbt"},
    "D02": {"pkg": "dbt"},
    "C01": {"pkg": "cl"},
    "C02": {"pkg": "cl"},
    "I01": {"pkg": "cl"},
    "I02": {"pkg": "cl"},
    "S01": {"pkg": "idt", "pin": True},
    "S02": {"pkg": "idt", "pin": True},
    "S03": {"pkg": "idt", "pin": True},
    "S04": {"pkg": "idt"},
    "S05": {"pkg": "idt", "pin": True},
    "S06": {"pkg": "idt", "pin": True},
    "S07": {"pkg": "idt", "pin": True},
    "S08": {"pkg": "idt", "race": True},
    "S09": {"pkg": "idt", "pin": True},
    "S10": {"pkg": "idt"},
    "P01": {"pkg": "pub"},
    "P02": {"pkg": "pub"},
    "P03": {"pkg": "pub", "race": True},
    "N01": {"pkg": "oct", "race": True},
    "N02": {"pkg": "oct"},
    "K01": {"pkg": "ks"},
    "K02": {"pkg": "ks"},
    "K03": {"pkg": "ks", "race": True},
    "U01": {"pkg": "ut", "race": True},
    "U02": {"pkg": "ut"},
    "U03": {"pkg": "ut", "race": True},
    "U04": {"pkg": "ut"},
}
