#!/usr/bin/env python3
# Builds the engine, the model and the bitcode of /repo's translation units (the checks do the same on demand).
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import build as bd
bd.engine(); bd.pch(bd.BASE + bd.IRF, 'i'); bd.pch(bd.BASE + bd.NATF, 'n')
names = bd.order(bd.tu_list(None)); bd.pmap(bd.compile_tu, names); bd.pmap(bd.model, ['stdlib', 'logger', 'env'])
bd.pmap(lambda n: bd.compile_tu(n, True), [n for n in bd.order(bd.repo_tus()) if n not in ('main', 'logger', 'flashmqtestclient')]); bd.pmap(lambda n: bd.model(n, True), ['rt', 'env', 'logger'])
print('ready')
