# Runs the real scripts/datagen.py with a stand-in for the dataset service it
# downloads from: streams of documents that may be slow, and may break off.
import json
import os
import runpy
import sys
import time
import types

with open(sys.argv[1], "rb") as f:
    scenario = json.load(f)


def stream(s):
    for i, doc in enumerate(s["docs"]):
        if s.get("fail") == i:
            raise ConnectionError("stream broke off")
        if i in s.get("slow", ()):
            time.sleep(s.get("delay", 0.5))
        yield doc
    if s.get("fail") == len(s["docs"]):
        raise ConnectionError("stream broke off")


def load_dataset(path, data_dir=None, split=None, streaming=False, **_):
    name = path if data_dir is None else data_dir.rsplit("/", 1)[-1]
    s = scenario["streams"][name]
    if s.get("fail") == -1:
        raise ConnectionError("no such dataset")
    docs = stream(s)
    return docs if streaming else list(docs)


datasets = types.ModuleType("datasets")
datasets.load_dataset = load_dataset
sys.modules["datasets"] = datasets
sys.setswitchinterval(scenario.get("switch", 0.005))
script = os.environ["TGX_REPO"] + "/scripts/datagen.py"
sys.argv = [script] + scenario["args"]
runpy.run_path(script, run_name="__main__")
