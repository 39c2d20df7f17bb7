"""Ways of building and writing transliterators."""
import json
import logging
import math
import re
import unicodedata

import yaml

from graphtransliterator import (
    DirectedGraph,
    EasyReadingSettingsSchema,
    GraphTransliterator,
    GraphTransliteratorSchema,
    HIGHEST_COMPRESSION_LEVEL,
    SettingsSchema,
    TransliterationRule,
    OnMatchRule,
    WhitespaceRules,
    __version__,
)
from graphtransliterator.compression import compress_config, decompress_config
from graphtransliterator.exceptions import IncorrectVersionException
from spec_derive import unescape
from marshmallow import ValidationError


def from_dict(dict_settings, **kwargs):
    s = SettingsSchema().load(dict_settings)
    return GraphTransliterator(
        s["tokens"],
        s["rules"],
        s["whitespace"],
        onmatch_rules=s.get("onmatch_rules"),
        metadata=s.get("metadata"),
        ignore_errors=kwargs.get("ignore_errors", False),
        check_ambiguity=kwargs.get("check_ambiguity", True),
    )


def from_dict_with_derived(dict_settings, **kwargs):
    s = SettingsSchema().load(dict_settings)
    return GraphTransliterator(
        s["tokens"],
        s["rules"],
        s["whitespace"],
        onmatch_rules=s.get("onmatch_rules"),
        metadata=s.get("metadata"),
        tokens_by_class=s.get("tokens_by_class"),
        graph=s.get("graph"),
        tokenizer_pattern=s.get("tokenizer_pattern"),
        ignore_errors=kwargs.get("ignore_errors", False),
        check_ambiguity=kwargs.get("check_ambiguity", True),
    )


def from_easyreading_dict(settings, **kwargs):
    loaded = EasyReadingSettingsSchema().load(settings)
    return GraphTransliterator.from_dict(process(loaded), **kwargs)


def from_easyreading_full(settings, **kwargs):
    loaded = EasyReadingSettingsSchema().load(settings)
    return GraphTransliterator.from_dict(process(loaded), **kwargs)


def from_yaml(text, charnames_escaped, **kwargs):
    if charnames_escaped:
        text = unescape(text)
    return GraphTransliterator.from_easyreading_dict(yaml.safe_load(text), **kwargs)


def from_yaml_file(filename, **kwargs):
    with open(filename, "r", encoding="utf-8") as f:
        return GraphTransliterator.from_yaml(f.read(), **kwargs)


def load(settings, **kwargs):
    all_ = dict(settings)
    all_.update(kwargs)
    return GraphTransliteratorSchema().load(all_)


def loads(settings, **kwargs):
    all_ = dict(json.loads(settings))
    all_.update(kwargs)
    return GraphTransliteratorSchema().load(all_)


def dump(gt, compression_level):
    if compression_level == 0:
        return GraphTransliteratorSchema().dump(gt)
    if compression_level not in range(1, HIGHEST_COMPRESSION_LEVEL + 1):
        raise ValueError
    settings = GraphTransliteratorSchema().dump(gt)
    return {
        "compressed_settings": compress_config(settings, compression_level=compression_level),
        "ignore_errors": gt.ignore_errors,
        "graphtransliterator_version": __version__,
    }


def dumps(gt, compression_level):
    if compression_level == 0:
        return GraphTransliteratorSchema().dumps(gt)
    return json.dumps(gt.dump(compression_level=compression_level), separators=(",", ":"))


# ---------------------------------------------------------------- schemas


def gt_pre_load(data):
    version = data.get("graphtransliterator_version")
    if version:
        theirs = [int(n) for n in re.findall("[0-9]+", version)]
        ours = [int(n) for n in re.findall("[0-9]+", __version__)]
        if theirs > ours:
            raise IncorrectVersionException
    compressed = data.get("compressed_settings")
    if not compressed:
        return data
    out = decompress_config(compressed)
    out.update({k: data[k] for k in data if k != "compressed_settings"})
    return out


def gt_post_dump(data):
    data["tokens"] = {k: sorted(v) for k, v in data["tokens"].items()}
    data["tokens_by_class"] = {k: sorted(v) for k, v in data["tokens_by_class"].items()}
    return data


def gt_post_load(data):
    if data.get("tokens"):
        data["tokens"] = {k: set(v) for k, v in data["tokens"].items()}
    if data.get("tokens_by_class"):
        data["tokens_by_class"] = {k: set(v) for k, v in data["tokens_by_class"].items()}
    if "check_ambiguity" not in data:
        data["check_ambiguity"] = False
    return GraphTransliterator(**data)


def gt_validates(data):
    if data.get("onmatch_rules_lookup") and not data.get("onmatch_rules"):
        raise ValidationError("")


def settings_post_load(data):
    data["tokens"] = {k: set(v) for k, v in data["tokens"].items()}
    data["rules"] = sorted(data["rules"], key=lambda r: r.cost)
    return data


def settings_validates_classes(data):
    known = set()
    for classes in data["tokens"].values():
        known = known.union(classes)
    wrong = False
    for rule in (data.get("onmatch_rules") or []):
        for c in rule.prev_classes or []:
            if c not in known:
                wrong = True
        for c in rule.next_classes or []:
            if c not in known:
                wrong = True
    for rule in data["rules"]:
        for c in rule.prev_classes or []:
            if c not in known:
                wrong = True
        for c in rule.next_classes or []:
            if c not in known:
                wrong = True
    if data["whitespace"].token_class not in known:
        wrong = True
    if wrong:
        raise ValidationError("")


def settings_validates_tokens(data):
    known = data["tokens"]
    wrong = data["whitespace"].default not in known
    for rule in data["rules"]:
        for t in rule.tokens or []:
            if t not in known:
                wrong = True
        for t in rule.prev_tokens or []:
            if t not in known:
                wrong = True
        for t in rule.next_tokens or []:
            if t not in known:
                wrong = True
    if wrong:
        raise ValidationError("")


def settings_validates(data):
    settings_validates_classes(data)
    settings_validates_tokens(data)


def rule_pre_dump(data):
    out = {}
    for k, v in data._asdict().items():
        if v is not None:
            out[k] = v
    return out


def node_pre_dump(data):
    return {k: v for k, v in data.items() if v or type(v) is int and v == 0}


def graph_pre_dump(data):
    data.edge_list = sorted(data.edge_list)
    return data


def graph_post_load(data):
    import copy

    return DirectedGraph(**copy.deepcopy(data))


# ------------------------------------------------------------ easy reading


def process(settings):
    return {
        "tokens": settings.get("tokens"),
        "rules": [process_rule(k, settings.get("rules")[k]) for k in settings.get("rules")],
        "onmatch_rules": process_onmatch(settings.get("onmatch_rules")),
        "whitespace": settings.get("whitespace"),
        "metadata": settings.get("metadata", {}),
    }


RULE = re.compile(
    r"(?:\(((?:\s?<.+?>\s+)+)?(.+?)\s?\) |((?:\s?<.+?>\s+)+)?)?"
    r"((?:\n|\r|.)+?)"
    r"(?:"
    r"\s+(?:\((.+?)((?:\s+<[^<>]+>)*)\)$)"
    r"|"
    r"((?:\s+<[^<>]+>)+)\s*$"
    r"|"
    r"$)"
)


def process_rule(text, production):
    match = RULE.match(text)
    if not match:
        raise AssertionError
    rule = {"production": production}
    if match.group(1):
        rule["prev_classes"] = re.findall("<(.+?)>", match.group(1))
    if match.group(3):
        rule["prev_classes"] = re.findall("<(.+?)>", match.group(3))
    if match.group(2):
        rule["prev_tokens"] = match.group(2).split(" ")
    rule["tokens"] = [" "] if match.group(4) == " " else [t for t in match.group(4).split(" ") if t != ""]
    if match.group(5):
        rule["next_tokens"] = match.group(5).split(" ")
    if match.group(6):
        rule["next_classes"] = re.findall("<(.+?)>", match.group(6))
    if match.group(7):
        rule["next_classes"] = re.findall("<(.+?)>", match.group(7))
    return rule


ONMATCH = re.compile(r"^((?:<[^+< \s]+>\s*)+)\+((?:\s*<[^+<]+>)+)\s*$")
CLASS = re.compile(r"(?<=<)[^+< \s]+(?=>)")


def process_onmatch(rules):
    out = []
    for item in rules or []:
        if len(item) != 1:
            raise AssertionError
        text, production = list(item.items())[0]
        match = ONMATCH.match(text)
        out.append(
            {
                "production": production,
                "prev_classes": CLASS.findall(match.group(1)),
                "next_classes": CLASS.findall(match.group(2)),
            }
        )
    return out


# -------------------------------------------------------------- ambiguity


def easyreading(rule):
    def classes(x):
        return " ".join("<" + c + ">" for c in x)

    out = ""
    if rule.prev_classes and rule.prev_tokens:
        out = "(" + classes(rule.prev_classes) + " " + " ".join(rule.prev_tokens) + ") "
    elif rule.prev_classes:
        out = classes(rule.prev_classes) + " "
    elif rule.prev_tokens:
        out = "(" + " ".join(rule.prev_tokens) + ") "
    out += " ".join(rule.tokens)
    if rule.next_tokens and rule.next_classes:
        return out + " (" + " ".join(rule.next_tokens) + " " + classes(rule.next_classes) + ")"
    if rule.next_tokens:
        return out + " (" + " ".join(rule.next_tokens) + ")"
    if rule.next_classes:
        return out + " " + classes(rule.next_classes)
    return out
