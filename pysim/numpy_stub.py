"""Stand-ins for the two libraries generate_predictions.py needs: numpy (a few functions) and the SageMaker client
(whose predictions come from the scenario)."""
import sys, types, json

def _argmax(a, axis=None):
    a = list(a)
    return max(range(len(a)), key=lambda i: (a[i], -i))
def _argmin(a, axis=None):
    a = list(a)
    return min(range(len(a)), key=lambda i: (a[i], i))

class Predictor:
    def __init__(self, endpoint_name, sagemaker_session=None, serializer=None, deserializer=None, **k):
        self.endpoint_name, self.serializer, self.deserializer = endpoint_name, serializer, deserializer
    def predict(self, data, *a, **k):
        from machine import cur
        p = cur()
        act = p.step("net", self.endpoint_name)
        if act == "lost": raise RuntimeError("connection to the endpoint lost")
        p.w.requests.append({"p": p.idx, "endpoint": self.endpoint_name, "data": list(data), "t": p.w.now, "csv": isinstance(self.serializer, CSVSerializer)})
        p.block(p.w.now + 30_000_000)
        if act == "lostafter": raise RuntimeError("answer of the endpoint lost")
        return json.dumps(p.w.predict(p.idx, self.endpoint_name, list(data))).encode()
class CSVSerializer:
    pass
class CSVDeserializer:
    pass

def install():
    n = types.ModuleType("numpy")
    n.argmax, n.argmin = _argmax, _argmin
    n.max, n.min, n.array, n.asarray, n.round = (lambda a: max(a)), (lambda a: min(a)), (lambda a, *x, **k: list(a)), (lambda a, *x, **k: list(a)), round
    n.float64, n.int64 = float, int
    sys.modules["numpy"] = n
    s = types.ModuleType("sagemaker")
    for sub, names in (("predictor", ["Predictor"]), ("serializers", ["CSVSerializer"]), ("deserializers", ["CSVDeserializer"])):
        m = types.ModuleType("sagemaker." + sub)
        for x in names: setattr(m, x, globals()[x])
        setattr(s, sub, m)
        sys.modules["sagemaker." + sub] = m
    sys.modules["sagemaker"] = s
