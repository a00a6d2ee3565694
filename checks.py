"""The steps of the check of every property."""
from check import Run, MC, Gen

ITERBUF = MC("IterBuffer", "MC_IterBuffer.cfg", "MC_IterBuffer_t.cfg")

PROPS = {
    "C01": [MC("MC_JsonText", "MC_JsonText_q.cfg", "MC_JsonText.cfg"),
            Run("textmachine", 5000, 5000, seeds=10),
            Run("textwords", 5000, 5000, seeds=2),
            Run("textedit", 4000, 60000, seeds=4),
            Run("untyped", 5000, 50000, judge=True, seeds=2)],
    "C02": [Run("badtyped", 6000, 100000, seeds=4),
            Run("badmachine", 5000, 5000, seeds=20),
            Run("typed", 8000, 60000, judge=True, seeds=2)],
    "C03": [ITERBUF,
            Run("chunks", 12000, 100000, judge=True, seeds=3),
            Run("chunkraw", 4000, 60000, seeds=4),
            Run("iter", 4000, 50000, judge=True, seeds=2)],
    "C04": [ITERBUF,
            Run("faults", 8000, 100000, judge=True, seeds=3),
            Run("faultsteps", 4200, 42000, seeds=4)],
    "C05": [Run("untyped", 16000, 100000, judge=True, seeds=3),
            Run("strings", 1500, 20000, judge=True, seeds=2),
            Run("floats", 600, 8000, judge=True, table=False, seeds=2)],
    "C06": [Run("strings", 4000, 60000, judge=True, seeds=3),
            Run("untyped", 5000, 50000, judge=True, seeds=2),
            Run("keys", 4000, 40000, judge=True, seeds=2)],
    "C07": [Run("ints", 2400, 10000, judge=True, seeds=2),
            Run("typed", 8000, 60000, judge=True, seeds=2)],
    "C08": [Run("typed", 24000, 100000, judge=True, seeds=3),
            Run("keys", 5000, 50000, judge=True, seeds=2),
            Run("dispdec", 5000, 50000, judge=True, seeds=2),
            Run("sizedec", 150, 3000, judge=True, seeds=2)],
    "C09": [MC("MC_StructFields", "MC_StructAll.cfg", "MC_StructAll_t.cfg"),
            Run("structgen", None, None, judge=True, gen=Gen("MC_StructFields", "MC_StructGen.cfg", "MC_StructGen_t.cfg")),
            Run("structdec", 8000, 60000, judge=True, seeds=3),
            Run("structenc", 6000, 60000, judge=True, seeds=3)],
    "C10": [Run("keys", 10000, 100000, judge=True, seeds=3),
            Run("structdec", 5000, 50000, judge=True, seeds=2)],
    "C11": [ITERBUF,
            Run("extents", 8000, 100000, judge=True, seeds=3),
            Run("chunkraw", 3000, 60000, seeds=4)],
    "C12": [Run("itershort", 990, 990, judge=True, seeds=4),
            Run("iterwalk", 40000, 400000, judge=True),
            Run("iter", 8000, 100000, judge=True, seeds=3)],
    "C13": [Run("session", 12000, 100000, judge=True, seeds=3)],
    "C14": [Run("encode", 20000, 100000, judge=True, seeds=3),
            Run("dispenc", 6000, 60000, judge=True, seeds=2),
            Run("structenc", 4000, 40000, judge=True, seeds=2),
            Run("sizeenc", 200, 3000, judge=True, seeds=2)],
    "C15": [Run("encstr", 3500, 20000, judge=True, seeds=2),
            Run("encode", 6000, 60000, judge=True, seeds=2),
            Run("encoderrnd", 3000, 40000, judge=True, table=False, seeds=2)],
    "C16": [Run("encnum", 5000, 20000, judge=True, seeds=3),
            Run("encode", 6000, 60000, judge=True, seeds=2)],
    "C17": [Run("writergen", None, None, judge=True, table=False, gen=Gen("MC_Writer", "MC_Writer.cfg", "MC_Writer_t.cfg")),
            Run("writerrnd", 8000, 100000, judge=True, table=False, seeds=3),
            Run("encode", 6000, 60000, judge=True, seeds=2)],
    "C18": [Run("writergen", None, 200000, judge=True, table=False, gen=Gen("MC_Writer", "MC_WriterFault.cfg", "MC_WriterFault_t.cfg")),
            Run("writerfault", 6000, 100000, judge=True, table=False, seeds=2),
            Run("encodergen", None, None, judge=True, table=False, gen=Gen("MC_Encoder", "MC_Encoder.cfg")),
            Run("encoderrnd", 6000, 100000, judge=True, table=False, seeds=2)],
    "C19": [MC("MC_FloatText", "MC_FloatText.cfg", "MC_FloatText_t.cfg"),
            Run("floats", 2000, 30000, judge=True, table=False, seeds=3),
            Run("untyped", 5000, 50000, judge=True, seeds=2)],
    "C20": [Run("roundtrip", 24000, 100000, judge=True, table=False, seeds=3),
            Run("structrt", 5000, 60000, judge=True, table=False, seeds=2),
            Run("texttrip", 10000, 100000, judge=True, table=False, seeds=2),
            Run("sizert", 150, 3000, judge=True, table=False, seeds=2)],
    "C21": [MC("CodecCache", "MC_CodecCache.cfg", "MC_CodecCache_t.cfg"),
            MC("CodecCache", "MC_CodecCache_Early.cfg", fails="PublishedComplete"),
            MC("CodecCache", "MC_CodecCache_Unlocked.cfg", fails="OneBuilder"),
            MC("CodecCache", "MC_CodecCache_InPlace.cfg", fails="PublishedComplete"),
            Run("race", 900, 12000, judge=True, race=True, seeds=3),
            Run("mixed", 5400, 80000, judge=True, race=True, seeds=2)],
    "C22": [Run("histgen", None, None, judge=True, gen=Gen("MC_Pool", "MC_Pool.cfg", "MC_Pool_t.cfg")),
            Run("histrnd", 800, 8000, judge=True, seeds=3),
            Run("order", 3000, 40000, judge=True, seeds=3)],
    "C23": [Run("alias", 12000, 100000, judge=True, seeds=3),
            Run("histrnd", 300, 4000, judge=True, seeds=2)],
    "C24": [Run("dispenc", 12000, 100000, judge=True, seeds=3),
            Run("dispdec", 10000, 100000, judge=True, seeds=3),
            Run("typed", 6000, 60000, judge=True, seeds=2),
            Run("encode", 6000, 60000, judge=True, seeds=2)],
    "C25": [MC("EfaceLoop", "MC_EfaceAll.cfg", "MC_EfaceAll_t.cfg"),
            MC("EfaceLoop", "MC_EfaceFirst.cfg", fails="Bounded"),
            Run("eloop", None, None, judge=True, gen=Gen("EfaceLoop", "MC_EfaceRho.cfg", "MC_EfaceRho_t.cfg")),
            MC("EfacePos", "MC_EfacePosIndex.cfg", fails="NoLoop"),
            MC("EfacePos", "MC_EfacePosForget.cfg", fails="NoLoop"),
            Run("epos", None, None, gen=Gen("EfacePos", "MC_EfacePos.cfg", "MC_EfacePos_t.cfg")),
            Run("deep", 400, 4000, seeds=2)],
    "C26": [Run("gc", 2000, 30000, judge=True, ckptr=True, env={"VERIF_GC": "1", "GODEBUG": "clobberfree=1"}, seeds=2)],
}
