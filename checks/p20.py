from common import *
from p18 import driver
from p19 import options, GEN, LLVM
TECH = "container compiles run by a fake engine whose containers see only the mounted directories; calls, arguments, files, logs and answers monitored against a local compile of the same request under ASan/UBSan"
NOTE = ("Random models, outputs and directories with hostile characters, links and '..', flags with shell syntax, engines, images, pulls, engine and compiler failures, nested containers with host prefixes, in session histories.")
def engine():
    return link2("fakeengine", [hobj("fakeengine.cpp", "plain", GEN), *options("plain"), *objs([f"{REPO}/src/Compiler/CommandUtils.cpp"], [*PLAIN, *INC, "-std=c++17"])], [], LLVM)
def build():
    return link2("p20", [hobj("p20.cpp", flags=GEN), *driver(), *options("asan")], ASAN, LLVM), engine()
def run(c):
    exe, cc = build()
    c.harness(exe, [c.scale(400, 8000), cc], shards=8, timeout=800)
    return dict(rule="random requests accepted by the compiler's parser on random setups; distinct by setup, arguments and paths", assumptions=["directories have no ':', which the engines' mount syntax cannot express", "paths in options other than the model and output are not translated", "the compiler's path in the image is a plain word"])
