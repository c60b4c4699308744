"""P29: the cloud client submits what it is given and returns what the service holds.

Monitor: a local stand-in of the service (REST interface and object storage on the loopback network)
records every request in order and keeps the entities; each client call is judged by the requests it
caused and by the entities afterwards. Faults (error codes at any point of a submission, expired
logins, strange fields, jobs that move on between the calls) are injected by the stand-in.
"""
import contextlib
import datetime
import http.server
import io
import json
import os
import shutil
import tempfile
import threading

import torch
from torch import nn
from torchvision.datasets import FashionMNIST, SVHN

import P19_cloud as cloud
from gen import coin
from vh import Scenario
from aihwkit.cloud.client.entities import CloudExperiment, CloudExperimentCategory, CloudJob, CloudJobStatus
from aihwkit.cloud.client.exceptions import (
    ApiResponseError, CredentialsError, ExperimentStatusError, InvalidResponseFieldError, ResponseError)
from aihwkit.cloud.client.session import ApiSession
from aihwkit.cloud.client.utils import ClientConfiguration, DEFAULT_URL
from aihwkit.cloud.client.v1.api_client import ApiClient
from aihwkit.cloud.client.v1.i_api_client import InferenceApiClient
from aihwkit.cloud.client.v1.parsers import ExperimentParser
from aihwkit.experiments.runners.cloud import CloudRunner
from aihwkit.experiments.runners.i_cloud import InferenceCloudRunner

PID = "P29"
RULE = ("one state per (client, operation, fault and where it happened, state of the job, presence of input and "
        "output)")
ASSUMPTIONS = ["the service is a local stand-in with the endpoints and fields the client uses",
               "experiments are those of P19 (every supported layer kind)"]
REQUIRES = ("created", "fetched", "listed", "result", "status", "fault", "login", "configured")

STATUS = {"waiting": CloudJobStatus.WAITING, "validating": CloudJobStatus.WAITING,
          "validated": CloudJobStatus.WAITING, "running": CloudJobStatus.RUNNING,
          "failed": CloudJobStatus.FAILED, "cancelled": CloudJobStatus.FAILED,
          "completed": CloudJobStatus.COMPLETED}


class Service:
    """The stand-in. ``log`` has (method, path, authorization, body) of every request."""

    def __init__(self, rng):
        os.environ["NO_PROXY"] = os.environ["no_proxy"] = "127.0.0.1"
        self.rng = rng
        self.token, self.jwt = "tok%d" % rng.randrange(1 << 40), "jwt%d" % rng.randrange(1 << 40)
        self.experiments, self.inputs, self.outputs, self.jobs, self.storage = {}, {}, {}, {}, {}
        self.log = []
        self.fault = None                   # (n-th request from now, status code)
        self.login_error = None
        self.n = rng.randrange(1000)
        svc = self

        class Handler(http.server.BaseHTTPRequestHandler):
            protocol_version = "HTTP/1.1"

            def _go(self):
                body = self.rfile.read(int(self.headers.get("Content-Length") or 0))
                svc.log.append((self.command, self.path, self.headers.get("Authorization"), body,
                                self.headers.get("User-Agent")))
                code, out = svc.answer(self.command, self.path, self.headers.get("Authorization"), body)
                if not isinstance(out, bytes):
                    out = json.dumps(out).encode()
                self.send_response(code)
                self.send_header("Content-Length", str(len(out)))
                self.end_headers()
                self.wfile.write(out)
            do_GET = do_POST = do_PUT = do_DELETE = _go

            def log_message(self, *_):
                pass
        self.server = http.server.ThreadingHTTPServer(("127.0.0.1", 0), Handler)
        self.server.daemon_threads = True
        threading.Thread(target=self.server.serve_forever, kwargs={"poll_interval": 0.01}, daemon=True).start()
        self.root = "http://127.0.0.1:%d" % self.server.server_address[1]
        self.url = self.root + "/api"

    def close(self):
        self.server.shutdown()
        self.server.server_close()

    def new_id(self, kind):
        self.n += 1
        return "%s-%d-%x" % (kind, self.n, self.rng.randrange(1 << 32))

    def add(self, name, category, job="waiting", payload=None, output=None):
        """An entity that exists already."""
        e = {"id": self.new_id("exp"), "name": name, "category": category, "createdAt": self.date()}
        self.experiments[e["id"]] = e
        if payload is not None:
            self.put_input(e["id"], payload)
        if job:
            self.put_job(e["id"], job, output)
        return e

    def date(self):
        r = self.rng
        self.when = datetime.datetime(r.randint(1990, 2040), r.randint(1, 12), r.randint(1, 28), r.randint(0, 23),
                                      r.randint(0, 59), r.randint(0, 59), r.randrange(1000) * 1000,
                                      tzinfo=datetime.timezone.utc)
        return self.when.strftime("%Y-%m-%dT%H:%M:%S.") + "%03dZ" % (self.when.microsecond // 1000)

    def put_input(self, exp, payload):
        i = self.new_id("in")
        key = "/storage/" + i + "?sig=%x" % self.rng.randrange(1 << 60)
        self.inputs[i] = key
        self.experiments[exp]["input"] = {"id": i}
        if payload is not None:
            self.storage[key] = payload
        return key

    def put_job(self, exp, status, output=None):
        j = {"id": self.new_id("job"), "status": status}
        if output is not None:
            self.finish(j, output)
        self.jobs[j["id"]] = j
        self.experiments[exp]["job"] = j
        return j

    def finish(self, job, payload):
        o = self.new_id("out")
        self.outputs[o] = "/storage/" + o + "?sig=1"
        self.storage[self.outputs[o]] = payload
        job["output"], job["status"] = o, "completed"

    def answer(self, method, path, auth, body):
        if self.fault is not None:
            n, code = self.fault
            self.fault = (n - 1, code)
            if n == 0:
                self.fault = None
                return code, {"message": "injected"}
        if path.startswith("/storage/"):
            if method == "PUT":
                if path not in self.inputs.values():
                    return 403, {}
                self.storage[path] = body
                return 200, b""
            if path in self.storage:
                return 200, self.storage[path]
            return 404, {}
        if not path.startswith("/api/"):
            return 404, {}
        parts = path[5:].split("/")
        data = json.loads(body) if body else {}
        if parts == ["token", "login"] and method == "POST":
            if self.login_error:
                return self.login_error
            return (200, {"jwt": self.jwt}) if data == {"token": self.token} else (400, {"message": "bad token"})
        if auth != "Bearer " + self.jwt:
            return 401, {"message": "not logged in"}
        if method == "POST" and len(parts) == 1:
            if parts[0] == "experiments":
                return 200, self.add(data["name"], data["category"], job=None)
            if data.get("experiment") not in self.experiments:
                return 404, {}
            if parts[0] == "inputs":
                return 200, {"url": self.root + self.put_input(data["experiment"], None)}
            if parts[0] == "jobs":
                return 200, self.put_job(data["experiment"], "waiting")
        if method == "GET":
            if parts == ["experiments", "me"]:
                return 200, list(self.experiments.values())
            table = {"experiments": self.experiments, "jobs": self.jobs}
            if len(parts) == 2 and parts[1] in table.get(parts[0], {}):
                return 200, table[parts[0]][parts[1]]
            table = {"inputs": self.inputs, "outputs": self.outputs}
            if len(parts) == 3 and parts[2] == "file" and parts[1] in table.get(parts[0], {}):
                return 200, {"url": self.root + table[parts[0]][parts[1]]}
        return 404, {"message": "no such thing"}

    def calls(self, start=0):
        return [(m, p.split("?")[0]) for m, p, *_ in self.log[start:]]

    def judge_headers(self, mon):
        """Every request after the login is authorized; the storage never sees the login."""
        for m, p, auth, body, agent in self.log:
            if p.startswith("/storage/"):
                mon.check(auth is None, "client:leak", lambda: f"authorization sent to the storage: {p}")
            elif not p.endswith("token/login"):
                mon.check(auth == "Bearer " + self.jwt, "client:authorization", lambda: f"{m} {p}: {auth}")
                mon.check(agent.startswith("aihwkit/"), "client:agent", lambda: str(agent))
            if not p.endswith("token/login"):
                mon.check(self.token.encode() not in body and self.token not in p, "client:token", lambda: f"{m} {p}")


def make_experiment(rng, category):
    """An experiment with the description of its model (as in P19)."""
    m = cloud.imp()
    ds = rng.choice([FashionMNIST, SVHN])
    if category == "train":
        model, specs = cloud.make_model(rng, m, ["AnalogLinear", "AnalogConv2d"], cloud.train_cfg(m))
        exp = m.BasicTraining(dataset=ds, model=model, batch_size=rng.randint(1, 99), epochs=rng.randint(1, 50),
                              learning_rate=rng.choice([0.5, 0.25, 0.125]), loss_function=rng.choice(cloud.LOSSES))
        return exp, (), specs, cloud.train_cfg_check
    cls = rng.choice(cloud.infer_presets(m))
    a, n = cloud.infos(rng)
    model, specs = cloud.make_model(rng, m, ["AnalogLinear", "AnalogConv2d"], lambda _: (cls(), None))
    exp = m.BasicInferencing(dataset=ds, model=model, batch_size=rng.randint(1, 99), loss_function=nn.NLLLoss,
                             weight_template_id="w", inference_repeats=rng.randint(1, 9),
                             inference_time=rng.randint(1, 10 ** 6))
    return exp, (a, n), specs, cloud.infer_cfg_check_for(a, n, cls, m)


def payload_of(exp, extra, category):
    m = cloud.imp()
    conv = m.training.BasicTrainingConverter() if category == "train" else m.inferencing.BasicInferencingConverter()
    return conv.to_proto(exp, *extra).SerializeToString()


def make_output(rng, category):
    """Serialized results and what they mean."""
    n = rng.randint(0, 4)
    if category == "train":
        from aihwkit.cloud.converter.definitions.output_file_pb2 import TrainingOutput
        out, want = TrainingOutput(), []
        out.version.schema = out.version.opset = 1
        out.network.SetInParent()
        for k in range(n):
            ep = out.epochs.add()
            ep.epoch = k
            me = {}
            for key in ("train_loss", "valid_loss", "accuracy"):
                at = ep.metrics.add()
                at.name, at.f, at.type = key, rng.randrange(1000) / 256, 1
                me[key] = at.f
            want.append({"epoch": k, "metrics": me})
        return out.SerializeToString(), want
    m = cloud.imp()
    want = [{k: rng.randrange(1000) / 256 for k in ("t_inference", "avg_accuracy", "std_accuracy", "avg_error", "avg_loss")}
            for _ in range(n)]
    runs = dict(inference_repeat=3, is_partial=False, time_elapsed=2.0, inference_results=want)
    return m.inferencing.BasicInferencingResultConverter().to_proto({"inference_runs": runs}).SerializeToString(), want


@contextlib.contextmanager
def service(rng):
    svc = Service(rng)
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            yield svc
    finally:
        svc.close()


def connect(rng, svc, category):
    """A client and the functions to submit and to get through it."""
    if coin(rng):
        runner = (CloudRunner if category == "train" else InferenceCloudRunner)(svc.url, svc.token)
        api = runner.api_client

        def submit(exp, extra, name, device):
            return runner.run(exp, *extra, name=name, device=device)
        return api, submit, runner.get_cloud_experiment, runner.list_cloud_experiments, "runner"
    api = (ApiClient if category == "train" else InferenceApiClient)(ApiSession(svc.url, svc.token))

    def submit(exp, extra, name, device):
        return api.experiment_create(exp, *extra, name, device)
    return api, submit, api.experiment_get, api.experiments_list, "client"


def same_experiment(mon, key, got, exp, specs, check):
    for k in ("dataset", "batch_size", "epochs", "learning_rate", "loss_function", "inference_repeats",
              "inference_time", "weight_template_id"):
        if hasattr(exp, k):
            mon.check(getattr(got, k, None) == getattr(exp, k), f"{key}:{k}", lambda: f"{getattr(got, k, None)} {getattr(exp, k)}")
    mon.check(type(got) is type(exp), f"{key}:type", lambda: str(type(got)))
    cloud.check_model(mon, key, got.model, specs, check)


def s_submit(rng, mon):
    """Create an experiment (with a fault somewhere), follow it to its result."""
    category = rng.choice(["train", "inference"])
    with service(rng) as svc:
        for _ in range(rng.randint(0, 2)):
            svc.add("other", rng.choice(["train", "inference"]), job=rng.choice([None, "running"]))
        api, submit, get, listing, how = connect(rng, svc, category)
        mon.check(svc.calls() == [("POST", "/api/token/login")], "login:calls", lambda: str(svc.calls()))
        mon.obs("login")
        exp, extra, specs, check = make_experiment(rng, category)
        data = payload_of(exp, extra, category)
        name = rng.choice(["my experiment", "x", "ünï ✓", "" if how == "runner" else "y"])
        device = rng.choice(["gpu", "cpu"])
        mon.ctx = f"{category} {how} {name!r} {device} {str(specs)[:500]}"
        others = set(svc.experiments)
        start = len(svc.log)
        where = rng.choice([None, None, 0, 1, 2, 3])
        if where is not None:
            code = rng.choice([400, 401, 403, 404, 409, 500, 503])
            svc.fault = (where, code)
            err = ResponseError if where == 2 else ApiResponseError
            try:
                submit(exp, extra, name, device)
                mon.fail(f"submit:fault_ignored:{where}", f"no error although request {where} gave {code}")
            except ResponseError as e:
                mon.check(type(e) is err and e.response.status_code == code and str(code) in str(e),
                          f"submit:fault:{where}", lambda: f"{type(e)} {e}")
                mon.check(svc.jwt not in str(e) and svc.token not in str(e), "submit:fault:leak", lambda: str(e))
            mon.check(len(svc.log) - start == where + 1, "submit:after_fault",
                      lambda: f"went on after a failed request: {svc.calls(start)}")
            mon.check(not any("job" in e for i, e in svc.experiments.items() if i not in others),
                      "submit:queued", "a job was queued although the submission failed")
            mon.obs("fault")
            mon.state("fault", category, how, where, code)
            svc.fault = None
            start, others = len(svc.log), set(svc.experiments)
        ce = submit(exp, extra, name, device)
        calls = svc.calls(start)
        eid = [i for i in svc.experiments if i not in others]
        mon.check(len(eid) == 1 and len(calls) == 4 and [c[0] for c in calls] == ["POST", "POST", "PUT", "POST"]
                  and [c[1] for c in calls[:2] + calls[3:]] == ["/api/experiments", "/api/inputs", "/api/jobs"],
                  "submit:calls", lambda: f"{calls} {eid}")
        eid = eid[0]
        e = svc.experiments[eid]
        auto = (f"aihwkit {'inference ' if category == 'inference' else ''}cloud experiment "
                f"({exp.dataset.__name__}, {len(exp.model)} layers)")
        mon.check(e["name"] == (name or auto) and e["category"] == category, "submit:entity", lambda: str(e))
        bodies = [json.loads(x[3]) for k, x in enumerate(svc.log[start:]) if k != 2]
        mon.check(bodies[1] == {"experiment": eid, "device": device} and bodies[2] == bodies[1], "submit:bodies",
                  lambda: str(bodies))
        mon.check(svc.storage[svc.inputs[e["input"]["id"]]] == data, "submit:payload", "other input uploaded")
        mon.check(isinstance(ce, CloudExperiment) and ce.id_ == eid and ce.name == e["name"] and ce.created_at == svc.when
                  and ce.category.name == ("BASIC_TRAINING" if category == "train" else "BASIC_INFERENCE"),
                  "submit:returned", lambda: repr(ce))
        mon.check(isinstance(ce.job, CloudJob) and ce.job.id_ == e["job"]["id"] and ce.job.status == CloudJobStatus.WAITING,
                  "submit:job", lambda: repr(ce.job))
        mon.obs("created")
        # listed and fetched
        seen = listing()
        mon.check([x.id_ for x in seen] == list(svc.experiments) and all(isinstance(x, CloudExperiment) for x in seen),
                  "list:ids", lambda: str([x.id_ for x in seen]))
        mon.obs("listed")
        src = rng.choice(["created", "fetched", "listed"])
        if src == "fetched":
            ce = get(eid)
        elif src == "listed":
            ce = [x for x in seen if x.id_ == eid][0]
        if coin(rng, 0.6):
            same_experiment(mon, f"fetch:{src}", ce.get_experiment(), exp, specs, check)
            mon.obs("fetched")
        # the job moves on
        job = svc.jobs[e["job"]["id"]]
        path = rng.choice([["running", "completed"], ["validating", "validated", "running", "completed"], ["completed"],
                           ["failed"], ["running", "cancelled"], ["running", "failed"]])
        out, want = make_output(rng, category)
        for st in path:
            if st == "completed":
                if coin(rng, 0.3):
                    job["status"] = st           # completed, but the output appears later
                    mon.check(ce.status() == CloudJobStatus.COMPLETED, "status:early", st)
                svc.finish(job, out)
            else:
                job["status"] = st
            if st != "completed" and coin(rng, 0.5):
                mon.raises(ce.get_result, f"result:early:{st}", "a result before the end", ExperimentStatusError)
            mon.check(ce.status() == STATUS[st], f"status:{st}", lambda: f"{ce.status()}")
            mon.obs("status")
        if path[-1] == "completed":
            got = ce.get_result()
            mon.check(got == want, f"result:{category}", lambda: f"{got} instead of {want}")
            mon.obs("result")
        else:
            mon.raises(ce.get_result, f"result:{path[-1]}", "a result of a failed job", ExperimentStatusError)
        # final states are not asked for again
        n = len(svc.log)
        final = ce.status()
        mon.check(final == STATUS[path[-1]] and len(svc.log) == n, "status:final", lambda: f"{final} {svc.calls(n)}")
        svc.judge_headers(mon)
        mon.state("submit", category, how, src, tuple(path), device, bool(name))


def s_get(rng, mon):
    """Experiments with and without input, job and output; fields the client does not know."""
    with service(rng) as svc:
        category = rng.choice(["train", "inference", "trainweb", "inferenceweb"])
        base = "train" if category.startswith("train") else "inference"
        exp, extra, specs, check = make_experiment(rng, base)
        has_input, st = coin(rng, 0.8), rng.choice([None, "waiting", "running", "failed", "completed"])
        out, want = make_output(rng, base)
        e = svc.add("n", category, job=st, payload=payload_of(exp, extra, base) if has_input else None,
                    output=out if st == "completed" else None)
        when = svc.when
        api, _, get, listing, how = connect(rng, svc, rng.choice(["train", "inference"]))
        mon.ctx = f"{category} input={has_input} job={st} {how} {str(specs)[:400]}"
        ce = get(e["id"]) if coin(rng) else listing()[0]
        mon.check(ce.id_ == e["id"] and ce.created_at == when and ce.name == "n"
                  and ce.category == (CloudExperimentCategory.BASIC_TRAINING if base == "train" else
                                      CloudExperimentCategory.BASIC_INFERENCE), "get:fields", lambda: repr(ce))
        mon.check(ce.input_id == (e["input"]["id"] if has_input else None), "get:input", lambda: str(ce.input_id))
        mon.check((ce.job is None) == (st is None) and (st is None or ce.job.id_ == e["job"]["id"]), "get:job")
        mon.check(ce.status() == (STATUS[st] if st else CloudJobStatus.UNKNOWN), f"get:status:{st}", lambda: str(ce.status()))
        mon.obs("status")
        if st is None:
            mon.raises(ce.get_experiment, "get:no_job", "an experiment without a job", ExperimentStatusError)
            mon.raises(ce.get_result, "get:no_job:result", "a result without a job", ExperimentStatusError)
            if coin(rng):
                # the job appears later
                svc.put_job(e["id"], "running")
                mon.check(ce.status() == CloudJobStatus.RUNNING, "get:late_job", lambda: str(ce.status()))
                st = "running"
        if st is not None and has_input:
            same_experiment(mon, f"get:{category}", ce.get_experiment(), exp, specs, check)
            mon.check(api.input_get(e["input"]["id"]) == svc.storage[svc.inputs[e["input"]["id"]]], "get:input_bytes")
            mon.obs("fetched")
        if st == "completed":
            mon.check(ce.get_result() == want, f"get:result:{category}", lambda: f"{ce.get_result()} {want}")
            mon.check(api.output_get(e["job"]["output"]) == out, "get:output_bytes")
            j = api.job_get(e["job"]["id"])
            mon.check(j == CloudJob(e["job"]["id"], e["job"]["output"], CloudJobStatus.COMPLETED), "get:job_fields", lambda: repr(j))
            mon.obs("result")
        # what does not exist or is not known raises
        mon.raises(lambda: get("nothing"), "get:missing", "an experiment that does not exist", ApiResponseError)
        bad = rng.choice(["status", "category", "date"])
        f = svc.add("bad", "train" if bad != "category" else rng.choice(["trainer", "", "Train"]),
                    job="finished" if bad == "status" else "waiting")
        if bad == "date":
            f["createdAt"] = "yesterday"
        mon.raises(lambda: get(f["id"]), f"get:unknown:{bad}", "a field with an unknown value was accepted",
                   (InvalidResponseFieldError, ValueError))
        svc.judge_headers(mon)
        mon.state("get", category, has_input, st, how, bad)


def s_login(rng, mon):
    """Logins that fail, and where credentials come from."""
    tmp = tempfile.mkdtemp(prefix="p29.")
    cwd = os.getcwd()
    saved = {k: os.environ.get(k) for k in ("AIHW_API_TOKEN", "XDG_CONFIG_HOME", "HOME")}
    try:
        with service(rng) as svc:
            os.chdir(tmp)
            os.environ["HOME"] = tmp
            for k in ("AIHW_API_TOKEN", "XDG_CONFIG_HOME"):
                os.environ.pop(k, None)
            env, where = coin(rng), rng.choice([None, "cwd", "xdg", "home"])
            in_file = rng.choice([("token",), ("url",), ("token", "url"), ()])
            file_token, env_token = "filetoken", "envtoken"
            if where:
                d = {"cwd": tmp, "xdg": tmp + "/cfg/aihwkit", "home": tmp + "/.config/aihwkit"}[where]
                os.makedirs(d, exist_ok=True)
                if where == "xdg":
                    os.environ["XDG_CONFIG_HOME"] = tmp + "/cfg"
                with open(d + "/aihwkit.conf", "w") as f:
                    f.write(("[cloud]\n" if coin(rng, 0.9) or in_file else "[other]\n")
                            + (f"api_token = {file_token}\n" if "token" in in_file else "")
                            + (f"api_url = {svc.url}\n" if "url" in in_file else ""))
            else:
                in_file = ()
            if env:
                os.environ["AIHW_API_TOKEN"] = env_token
            token = env_token if env else file_token if "token" in in_file else None
            url = svc.url if "url" in in_file else DEFAULT_URL
            mon.ctx = f"env={env} file={where} {in_file}"
            c = ClientConfiguration()
            mon.check(c.token == token, "config:token", lambda: f"{c.token} instead of {token}")
            mon.check(c.url == url, "config:url", lambda: f"{c.url} instead of {url}")
            mon.obs("configured")
            cls = rng.choice([CloudRunner, InferenceCloudRunner])
            if token is None:
                mon.raises(lambda: cls(svc.url), "config:no_token", "a runner without token", CredentialsError)
            else:
                svc.token = token
                r = cls(svc.url) if url != svc.url or coin(rng) else cls()
                mon.check(r.api_url == svc.url and r.api_token == token and len(svc.log) == 1, "config:runner",
                          lambda: f"{r.api_url} {r.api_token}")
            svc.token = "given"
            r = cls(svc.url, "given")
            mon.check(r.api_token == "given" and r.session.jwt_token == svc.jwt, "config:arguments", lambda: r.api_token)
            # logins that fail
            code = rng.choice([400, 400, 401, 403, 500])
            body = rng.choice([{"message": "sorry"}, {}, b"<html>"])
            svc.login_error = (code, body)
            err = CredentialsError if code == 400 else ApiResponseError
            try:
                cls(svc.url, "given")
                mon.fail("login:accepted", f"login succeeded although the service answered {code}")
            except (CredentialsError, ApiResponseError) as e:
                mon.check(type(e) is err, f"login:{code}", lambda: repr(e))
                if code == 400 and body == {"message": "sorry"}:
                    mon.check("sorry" in str(e), "login:message", lambda: str(e))
                mon.check("given" not in str(e), "login:leak", lambda: str(e))
            svc.login_error = None
            mon.obs("login")
            mon.state("login", env, where, in_file, code, str(body), cls.__name__)
    finally:
        os.chdir(cwd)
        for k, v in saved.items():
            os.environ.pop(k, None)
            if v is not None:
                os.environ[k] = v
        shutil.rmtree(tmp)


SCENARIOS = [
    Scenario("submit", s_submit, quick=150, thorough=2500, min_evals=2000),
    Scenario("get", s_get, quick=150, thorough=2500, min_evals=1500),
    Scenario("login", s_login, quick=100, thorough=1000, min_evals=500),
]
