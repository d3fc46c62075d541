"""Which contract modules and which bounded module serve each property."""
CONTRACTS = {
    "C01": ["c01"],
    "C02": ["c02"],
    "C03": ["c03"],
    "C04": ["c04", "c14", "c14db"],
    "C05": ["c05"],
    "C06": ["c06"],
    "C07": ["c07"],
    "C08": ["c08"],
    "C09": ["c09"],
    "C10": ["c10"],
    "C11": ["c11"],
    "C12": ["c12"],
    "C13": ["c13"],
    "C14": ["c14", "c14db"],
    "C15": ["c15"],
    "C16": ["c16"],
    "C17": ["c04"],
    "C19": ["c19"],
    "C20": ["c20"],
}
