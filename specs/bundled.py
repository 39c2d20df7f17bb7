"""Bundled transliterators."""
import os
from collections import OrderedDict

import yaml
from graphtransliterator import CoverageTransliterator, GraphTransliterator
from graphtransliterator.transliterators import Bundled


def tests_of(gt):
    with open(gt.yaml_tests_filen, "r", encoding="utf-8") as f:
        return {str(k): str(v) for k, v in yaml.safe_load(f).items()}


def run_tests(gt, transliteration_tests):
    for source in transliteration_tests:
        if gt.transliterate(str(source)) != str(transliteration_tests[source]):
            raise AssertionError


def generate(gt):
    def one_of(c):
        return next(filter(lambda t: t in gt.tokens_by_class[c], gt.tokens))

    tests = {}
    for rule in gt.rules:
        text = "".join(one_of(c) for c in rule.prev_classes or [])
        text += "".join(rule.prev_tokens or [])
        text += "".join(rule.tokens)
        text += "".join(rule.next_tokens or [])
        text += "".join(one_of(c) for c in rule.next_classes or [])
        tests[text] = gt.transliterate(text)
    for rule in gt.onmatch_rules or []:
        text = "".join(one_of(c) for c in rule.prev_classes)
        text += "".join(one_of(c) for c in rule.next_classes)
        tests[text] = gt.transliterate(text)
    return yaml.dump(tests, allow_unicode=True)


def run_yaml_tests(gt):
    gt.run_tests(gt.load_yaml_tests())
    return True


# what a bundled transliterator holds is what was read


def drive_yaml(b, check_ambiguity, ignore_errors):
    b.from_YAML(check_ambiguity=check_ambiguity, ignore_errors=ignore_errors)
    return b.tokens, b.rules, b.whitespace, b.metadata


def want_yaml(b, check_ambiguity, ignore_errors):
    gt = GraphTransliterator.from_yaml_file(os.path.join(b.directory, b.name + ".yaml"), check_ambiguity=check_ambiguity, ignore_errors=ignore_errors)
    return gt.tokens, gt.rules, gt.whitespace, gt.metadata


def drive_yaml_setting(b, check_ambiguity, ignore_errors):
    b.from_YAML(check_ambiguity=check_ambiguity, ignore_errors=ignore_errors)
    return b.ignore_errors


def want_yaml_setting(b, check_ambiguity, ignore_errors):
    gt = GraphTransliterator.from_yaml_file(os.path.join(b.directory, b.name + ".yaml"), check_ambiguity=check_ambiguity, ignore_errors=ignore_errors)
    return gt.ignore_errors


def drive_yaml_default(b):
    b.from_YAML()
    return b.tokens, b.rules, b.whitespace, b.metadata


def want_yaml_default(b):
    gt = GraphTransliterator.from_yaml_file(os.path.join(b.directory, b.name + ".yaml"), check_ambiguity=True)
    return gt.tokens, gt.rules, gt.whitespace, gt.metadata


def drive_json(b, check_ambiguity, ignore_errors):
    b.from_JSON(check_ambiguity=check_ambiguity, ignore_errors=ignore_errors)
    return b.tokens, b.rules, b.whitespace, b.onmatch_rules, b.metadata


def want_json(b, check_ambiguity, ignore_errors):
    with open(os.path.join(b.directory, b.name + ".json"), "r", encoding="utf-8") as f:
        gt = GraphTransliterator.loads(f.read(), check_ambiguity=check_ambiguity, ignore_errors=ignore_errors)
    return gt.tokens, gt.rules, gt.whitespace, gt.onmatch_rules or None, gt.metadata


def drive_json_setting(b, check_ambiguity, ignore_errors):
    b.from_JSON(check_ambiguity=check_ambiguity, ignore_errors=ignore_errors)
    return b.ignore_errors


def want_json_setting(b, check_ambiguity, ignore_errors):
    with open(os.path.join(b.directory, b.name + ".json"), "r", encoding="utf-8") as f:
        gt = GraphTransliterator.loads(f.read(), check_ambiguity=check_ambiguity, ignore_errors=ignore_errors)
    return gt.ignore_errors


def drive_json_default(b):
    b.from_JSON()
    return b.tokens, b.rules, b.whitespace, b.onmatch_rules, b.metadata, b.ignore_errors


def want_json_default(b):
    with open(os.path.join(b.directory, b.name + ".json"), "r", encoding="utf-8") as f:
        gt = GraphTransliterator.loads(f.read(), check_ambiguity=False)
    return gt.tokens, gt.rules, gt.whitespace, gt.onmatch_rules or None, gt.metadata, gt.ignore_errors


def drive_new_yaml(check_ambiguity, ignore_errors):
    return Bundled.new(method="yaml", check_ambiguity=check_ambiguity, ignore_errors=ignore_errors).tokens


def want_new_yaml(check_ambiguity, ignore_errors):
    b = Bundled.__new__(Bundled)
    b.from_YAML(check_ambiguity=check_ambiguity, ignore_errors=ignore_errors)
    return b.tokens


def drive_new_json(check_ambiguity, ignore_errors):
    return Bundled.new(check_ambiguity=check_ambiguity, ignore_errors=ignore_errors).tokens


def want_new_json(check_ambiguity, ignore_errors):
    b = Bundled.__new__(Bundled)
    b.from_JSON(check_ambiguity=check_ambiguity, ignore_errors=ignore_errors)
    return b.tokens
