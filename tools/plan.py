"""How many seeds each check runs: property -> tier -> (runs, wall limit in seconds)."""
_quick = {
 "C01": 130000, "C02": 150000, "C03": 170000, "C04": 250000, "C05": 150000, "C06": 50000, "C07": 150000, "C08": 130000,
 "C09": 300000, "C10": 350000, "C11": 600000, "C12": 220000, "C13": 50000, "C14": 800, "C15": 220000, "C16": 220000,
 "C17": 140000, "C18": 200000, "C19": 200000, "C20": 140000, "C21": 140000, "C22": 300000, "C23": 10000, "C24": 400000, "C25": 280000, "C26": 600000, "C27": 80000,
}
PLAN = {p: {"quick": (q, 240), "thorough": (q * 40, 2400)} for p, q in _quick.items()}
