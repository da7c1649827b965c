"""Installation of the sample settings files (reference definitions)."""
import argparse
import inspect
import os
import shutil


def options():
    parser = argparse.ArgumentParser()
    parser.add_argument("-y", "--yes", action="store_true", dest="overwrite", default=False)
    parser.add_argument("-o", "--output", default=None, dest="output_path", type=str)
    return parser.parse_args()


def required(path):
    if not os.path.isfile(path):
        raise FileNotFoundError("missing")


def samples():
    """Where the samples are installed: beside the program."""
    name = inspect.getfile(inspect.currentframe())
    return name.rsplit("/", 1)[0]


def agreed(prompt):
    """Asks until the answer is yes or no; no answer means no."""
    answer = input(prompt).lower().strip()
    if answer in ("y", "yes", "n", "no", ""):
        return answer in ("y", "yes")
    return agreed(prompt)


def install(basename, source_dir, target_dir, silent_overwrite):
    """An existing file is replaced only on request."""
    target = f"{target_dir}/{basename}"
    if not silent_overwrite and os.path.isfile(target):
        if not agreed(f"{basename} already exists in {target_dir}/\nReplace target? [y/N] "):
            return
    shutil.copyfile(f"{source_dir}/{basename}", target, follow_symlinks=True)


def program():
    """All four samples reach the chosen directory, by default the current one."""
    args = options()
    source = samples()
    if args.output_path:
        target = args.output_path
        os.makedirs(target, exist_ok=True)
    else:
        target = os.getcwd()
    if target == source:
        raise ValueError("identical")
    for name in ("config.toml", "constants.toml", "slurm_config.toml", "utilities_config.toml"):
        required(f"{source}/{name}")
        install(name, source, target, args.overwrite)
