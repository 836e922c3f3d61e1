"""All checks: property -> function(ctx)."""
import cli, echecks, jobs, lang, proc, tmpl
REGISTRY = {}
for m in (cli, echecks, jobs, lang, proc, tmpl):
    REGISTRY.update(m.REGISTRY)
