#!/usr/bin/env python3
"""check.py <property> [quick|thorough]: decides one property, see DESIGN.md"""
import os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from common import *
import importlib

WHERE = {'C01': 'exact', 'C02': 'exact', 'C11': 'exact', 'C05': 'trees', 'C06': 'trees',
         'C07': 'tours', 'C08': 'tours', 'C09': 'tours', 'C17': 'tours',
         'C10': 'graphs', 'C12': 'graphs', 'C15': 'graphs', 'C16': 'graphs',
         'C03': 'message', 'C04': 'message', 'C13': 'message', 'C14': 'program', 'C18': 'program'}


def main():
    pid = sys.argv[1].upper()
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    ctx = Ctx(pid, tier, seed)
    bg = Background(3)
    try:
        getattr(importlib.import_module(WHERE[pid]), pid.lower())(ctx, bg)
        bg.join()
        rc = finish(ctx)
    except ToolError as e:
        print('check of %s could not be carried out: %s' % (pid, e))
        rc = 2
    except Exception:
        traceback.print_exc()
        rc = 2
    finally:
        bg.ex.shutdown(wait=True, cancel_futures=True)
        shutil.rmtree(ctx.work, ignore_errors=True)
    sys.stdout.flush()
    os._exit(rc)


main()
