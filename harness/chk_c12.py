"""C12: training of parallel flows, scheduled and step by step."""
import parflow_common


def run(chk):
    parflow_common.run(chk, 'train')
    parflow_common.run(chk, 'cp')
