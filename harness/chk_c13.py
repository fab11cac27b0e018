"""C13: execution of parallel flows, scheduled and step by step."""
import parflow_common


def run(chk):
    parflow_common.run(chk, 'exec')
