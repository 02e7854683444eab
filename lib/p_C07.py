import p_C06
def run(ck): p_C06.run(ck, mix="1")
