import os,sys
sys.path.insert(0,os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'meta'))
import core
TOOLS=['absint','astlint','bitflow']
TRUST=['clang 18 front end (driver instantiation to LLVM IR, compiled at -O1 with passes disabled)','the LLVM inliner/SROA/simplify passes used before analysis','the analyser /verif/tool (relational abstract interpretation: affine equalities and linear inequalities, value partitioning, lexicographic ranking)','the models of std::string/std::vector/streams in /verif/tool/transfer.inc']
ASSUME=['no allocation failure; object sizes below 2^46 bytes','template instantiations in /verif/drivers stand for the library templates']
PROPS={p['id']:dict(p,level=p.get('level','proof')) for p in core.PROPS if not p.get('na')}
