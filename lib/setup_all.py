"""Build everything once (the checks rebuild what changed)."""
import subprocess
from common import *


def main():
    bins = build_sim(["checked", "shipped", "uninline", "nostd", "nostd-checked", "nostd-avx2", "traced", "counted"])
    subprocess.run([bins["checked"], "selfcheck"], check=True, env=env())
    build_cli()
    build_cli(True)
    print("setup complete")
