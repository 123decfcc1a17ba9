"""setup: nothing is compiled; shows that the interpreter, the package under test and the checks load"""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import env
env.setup()
for m in ("types.byte_buffer", "types.cosem_pdu", "types.useful_types", "types.common_data_types", "hdlc.frame"):
    try:
        env.mod(m)
        print("ok", m)
    except env.CodeUnderTestBroken as e:
        print(e)
