"""What commands output."""
import json
import os
import re

import click
import yaml
from graphtransliterator import GraphTransliterator
import graphtransliterator.transliterators
from graphtransliterator.cli import load_transliterator


def load(source, **kwargs):
    kind, name = source
    if kind == "bundled":
        return getattr(graphtransliterator.transliterators, name)(**kwargs)
    if kind == "json":
        return GraphTransliterator.loads(name, **kwargs)
    if kind == "json_file":
        with open(name, "r", encoding="utf-8") as f:
            return GraphTransliterator.loads(f.read(), **kwargs)
    if kind == "yaml_file":
        return GraphTransliterator.from_yaml_file(name, **kwargs)


def transliterate(from_, to, input, check_ambiguity, ignore_errors):
    gt = load_transliterator(from_, check_ambiguity=check_ambiguity, ignore_errors=ignore_errors)
    if len(input) == 1:
        out = gt.transliterate(input[0])
    else:
        out = [gt.transliterate(x) for x in input]
    click.echo(json.dumps(out) if to == "json" else out)


def dump(from_, check_ambiguity, compression_level):
    gt = load_transliterator(from_, check_ambiguity=check_ambiguity)
    click.echo(gt.dumps(compression_level=compression_level))


def dump_tests(bundled, to):
    gt = load_transliterator(["bundled", bundled])
    if to == "json":
        click.echo(json.dumps(gt.load_yaml_tests()))
    elif to == "yaml":
        with open(gt.yaml_tests_filen, "r", encoding="utf-8") as f:
            click.echo(f.read())


def generate_tests(from_, check_ambiguity):
    gt = load_transliterator(from_, check_ambiguity=check_ambiguity)
    click.echo(graphtransliterator.transliterators.Bundled.generate_yaml_tests(gt))


def test(bundled, check_ambiguity):
    gt = load_transliterator(["bundled", bundled], check_ambiguity=check_ambiguity)
    click.echo(gt.run_yaml_tests())


def list_bundled():
    click.echo("Bundled transliterators:")
    for name in graphtransliterator.transliterators.iter_names():
        click.echo("  {}".format(name))


def make_json(bundled, regex):
    if not regex:
        bundled = "^" + re.escape(bundled) + "$"
    names = []
    for name in graphtransliterator.transliterators.iter_names():
        if re.match(bundled, name):
            names.append(name)
    if not names:
        click.echo(f"No bundled transliterator found matching /{bundled}/.")
        click.echo('Try "graphtransliterator list-bundled" for a list.')
        return
    for name in names:
        gt = getattr(graphtransliterator.transliterators, name).new(method="yaml")
        with open(os.path.join(gt.directory, gt.name + ".json"), "w", encoding="utf-8") as f:
            f.write(gt.dumps())
        click.echo(f"Made JSON of {name}.")
