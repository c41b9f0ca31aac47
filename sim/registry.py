"""Which native seams (LD_PRELOAD libraries) each check runs under."""

PRELOAD = {
    "C01": ["simfs"],
    "C02": ["simfs"],
    "C03": ["simfs"],
    "C04": ["simfs"],
    "C05": ["simfs"],
    "C06": ["simfs"],
    "C07": ["simfs"],
    "C08": ["simfs"],
    "C09": ["tsched"],
    "C10": ["tsched"],
    "C14": ["simfs"],
    "C15": ["simfs"],
    "C16": ["simfs"],
}
