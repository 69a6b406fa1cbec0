"""Compile every driver once, so that the compiler cache is warm."""
import glob, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build
names = [os.path.basename(f)[:-4] for f in glob.glob(os.path.join(build.HERE, "harness", "*.cpp"))]
build.build(sys.argv[1], {n: n + ".cpp" for n in names if n not in ("par", "remesh", "quadric", "pyref", "pywrap")})
build.build(os.path.join(sys.argv[1], "emu"), {"par": "par.cpp"}, emu=True)
build.build(sys.argv[1], {"misusem": "misuse.cpp"}, module=True)
build.python(sys.argv[1])
import checks
build.build(os.path.join(sys.argv[1], "wrap"), {"remesh": "remesh.cpp"}, wraps=checks.EDIT_WRAPS)
build.build(os.path.join(sys.argv[1], "wrapq"), {"quadric": "quadric.cpp"}, wraps=checks.MERGE_WRAPS)
