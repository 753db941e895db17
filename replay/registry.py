"""Which replay cases decide which property, with quick case counts."""
import importlib

CASES = {
    "C01": [("core.c01", 480)],
    "C02": [("core.c02", 600), ("core.c03_txn", 240)],
    "C03": [("core.c03", 480), ("core.c03_txn", 360)],
    "C04": [("crash.c04", 120), ("crash.c04_create", 60)],
    "C05": [("core.c05", 720), ("core.c05_large", 48)],
    "C06": [("core.c06", 600), ("core.c06_files", 360)],
    "C07": [("core.c07", 600), ("core.c07_ranges", 480),
            ("ray.c07_ray", 360)],
    "C08": [("core.c08", 720), ("core.c08_bounds", 1200)],
    "C09": [("core.c09", 720)],
    "C10": [("core.c10", 600), ("more.c18", 120),
            ("more.c18_array_record", 240)],
    "C11": [("core.c11", 600)],
    "C12": [("core.c12", 600), ("core.c12_addresses", 600)],
    "C13": [("more.c13", 720), ("more.c13_invalid", 360)],
    "C14": [("more.c14", 480), ("more.c14_instructions", 1200)],
    "C15": [("more.c15", 480), ("more.c15_paths", 240)],
    "C16": [("more.c16", 480)],
    "C17": [("more.c17", 1200), ("more.c17_tf", 80)],
    "C18": [("more.c18", 600), ("more.c18_array_record", 480)],
    "C19": [("ray.c19", 600), ("ray.c19_tasks", 480)],
    "C20": [("ray.c20", 480)],
    "C21": [("ray.c21", 480), ("ray.c21_fail", 120)],
    "C22": [("ray.c22", 1200)],
    "C23": [("core.c23", 600)],
}


def find(pid, name):
  mod, fn = name.split(".")
  return getattr(importlib.import_module("cases_" + mod), fn)
