import re,os
import sys; os.chdir(sys.argv[1])
def sub(f,a,b,n=1):
    s=open(f).read(); assert s.count(a)>=1,(f,a); s=s.replace(a,b,n); open(f,'w').write(s)
D='src/irspack/dataset/downloader.py'
s=open(D).read()
i=s.index("                with TemporaryDirectory("); j=s.index('                print("complete")')
s=s[:i]+'''                self._fetch(zippath)
'''+s[j:]
s=s.replace('''    def _read_as_istream(''','''    def _fetch(self, target: Path) -> None:
        fd, name = tempfile.mkstemp(dir=str(target.parent), suffix=".part")
        os.close(fd)
        part = Path(name)
        try:
            self._save_to_zippath(part)
            with open(part, "rb") as ifs:
                ok = is_zipfile(ifs)
            if not ok:
                raise RuntimeError("the downloaded file is not a complete zip archive")
            os.replace(name, target)
        finally:
            if part.exists():
                os.unlink(name)

    def _read_as_istream(''',1)
s=s.replace("from tempfile import TemporaryDirectory\n","").replace("import urllib.request","import os\nimport shutil\nimport tempfile\nimport urllib.request",1)
s=s.replace('''        urllib.request.urlretrieve(self.DOWNLOAD_URL, path)''','''        with urllib.request.urlopen(self.DOWNLOAD_URL) as response:
            length = response.headers.get("Content-Length")
            with open(path, "wb") as ofs:
                shutil.copyfileobj(response, ofs)
                got = ofs.tell()
        if length is not None and got < int(length):
            raise urllib.error.ContentTooShortError("retrieval incomplete", (str(path), response.headers))''')
s=s.replace("import urllib.request\n","import urllib.error\nimport urllib.request\n",1)
open(D,'w').write(s)
M='src/irspack/dataset/mind.py'
s=open(M).read()
s=s.replace('''                with NamedTemporaryFile(
                    "wb", delete=False, dir=path.parent, prefix=f".{path.name}."
                ) as output:
                    temporary_path = Path(output.name)
                    shutil.copyfileobj(response, output)
            if not is_zipfile(temporary_path):
                raise RuntimeError(f"{url} did not return a complete zip archive.")
            temporary_path.replace(path)
''','''                content = response.read()
            if not is_zipfile(BytesIO(content)):
                raise RuntimeError(f"{url} did not return a complete zip archive.")
            temporary_path = path.with_name(path.name + f".{os.getpid()}.tmp")
            temporary_path.write_bytes(content)
            os.rename(temporary_path, path)
''')
s=s.replace('''            candidates = behaviors["impressions"].str.split().explode()
            labels = candidates.str.rsplit("-", n=1, expand=True)
            frame = behaviors.loc[
                candidates.index, ["impression_id", "user_id", "timestamp"]
            ].copy()
            frame["item_id"] = labels[0].to_numpy()
            frame["clicked"] = labels[1].eq("1").to_numpy()
            frame["position"] = frame.groupby("impression_id", sort=False).cumcount()
            frame["split"] = split_name
''','''            rows = []
            seen: Dict[object, int] = {}
            for k, text in enumerate(behaviors["impressions"]):
                imp = behaviors["impression_id"].iloc[k]
                if not isinstance(text, str):
                    continue
                for token in text.split():
                    item, _, flag = token.rpartition("-")
                    position = seen.get(imp, 0)
                    seen[imp] = position + 1
                    rows.append((k, item, flag == "1", position))
            where = [r[0] for r in rows]
            frame = behaviors.iloc[where][
                ["impression_id", "user_id", "timestamp"]
            ].copy()
            frame["item_id"] = [r[1] for r in rows]
            frame["clicked"] = [r[2] for r in rows]
            frame["position"] = [r[3] for r in rows]
            frame["split"] = split_name
''')
open(M,'w').write(s)
T='src/irspack/split/time.py'
s=open(T).read()
i=s.index("    df_sorted = df.sort_values")
s=s[:i]+'''    df_sorted = df.sort_values([user_column, timestamp_column])
    users = df_sorted[user_column].tolist()
    count: dict = {}
    for u in users:
        count[u] = count.get(u, 0) + 1
    seen: dict = {}
    indicator = np.zeros(len(users), dtype=bool)
    for k in range(len(users) - 1, -1, -1):
        u = users[k]
        if n_heldout is not None:
            quota = n_heldout
        else:
            exact = count[u] * heldout_ratio
            quota = np.ceil(exact) if ceil_n_heldout else np.floor(exact)
        from_end = seen.get(u, 0)
        indicator[k] = from_end < quota
        seen[u] = from_end + 1
    return df_sorted[~indicator], df_sorted[indicator]
'''
open(T,'w').write(s)
I='src/irspack/utils/id_mapping.py'
s=open(I).read()
i=s.index("        if allowed_item_ids is not None:\n            allowed_item_indices = np.asarray("); j=s.index("        return recommendations\n",i)
s=s[:i]+'''        if allowed_item_ids is None:
            candidates = list(range(len(self.item_ids)))
        else:
            candidates = sorted(set(self._item_id_list_to_index_list(allowed_item_ids)))
        banned = set(self._item_id_list_to_index_list(forbidden_item_ids or []))
        scored = [
            (self.item_ids[c], float(score[c]))
            for c in candidates
            if c not in banned and score[c] != -np.inf
        ]
        scored.sort(key=lambda pair: -pair[1])
        recommendations: List[Tuple[ItemIdType, float]] = scored[: max(cutoff, 0)]
'''+s[j:]
open(I,'w').write(s)
E='src/irspack/evaluation/evaluator.py'
s=open(E).read()
s=s.replace('''            scores[mask.nonzero()] = -np.inf
            for i, c in enumerate(cutoffs):
                chunked_metric''','''            hidden = np.zeros(scores.shape, dtype=bool)
            hidden[mask.nonzero()] = True
            scores = np.where(hidden, scores.dtype.type(-np.inf), scores)
            scores = np.ascontiguousarray(scores)
            for i, c in enumerate(cutoffs):
                chunked_metric''',1)
open(E,'w').write(s)
O='src/irspack/optimization/optimizer.py'
s=open(O).read()
s=s.replace('''            data = self._data_suggest_function(trial)
            params = self._parameter_suggest_function(trial)
            params.update(self.recommender_params)
''','''            data = self._data_suggest_function(trial)
            params = {
                **self._parameter_suggest_function(trial),
                **self.recommender_params,
            }
''')
s=s.replace('''            # max_epoch will be stored in learnt_config
            for param_name, param_val in recommender.learnt_config.items():
                trial.set_user_attr(param_name, param_val)

            add_score_to_trial(trial, score, self.val_evaluator.cutoff)
''','''            add_score_to_trial(trial, score, self.val_evaluator.cutoff)
            learnt = dict(recommender.learnt_config)
            for param_name in sorted(learnt):
                trial.set_user_attr(param_name, learnt[param_name])
''')
open(O,'w').write(s)
U='src/irspack/split/userwise.py'
s=open(U).read()
s=s.replace('''    df_train = df_all[df_all[user_column].isin(train_uids)].copy()
    df_val = df_all[df_all[user_column].isin(val_uids)].copy()
    df_test = df_all[df_all[user_column].isin(test_uids)].copy()
''','''    def pick(ids: Any) -> pd.DataFrame:
        chosen = set(ids)
        keep = np.asarray([u in chosen for u in df_all[user_column]], dtype=bool)
        return df_all.loc[keep].copy()

    df_train, df_val, df_test = pick(train_uids), pick(val_uids), pick(test_uids)
''')
open(U,'w').write(s)
