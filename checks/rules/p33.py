from lib import pyrules


def run(cur, rep):
    pyrules.conform(rep, "P33")
