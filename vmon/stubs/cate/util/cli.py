"""Stand-in for cate.util.cli (not installable here): same interface and error handling as used by dedop.cli.main."""
import argparse, sys
from .monitor import ConsoleMonitor


class CommandError(Exception):
    def __init__(self, cause, *args):
        super().__init__(str(cause), *args)


class ExitException(Exception):
    def __init__(self, status, message):
        super().__init__(message)
        self.status, self.message = status, message


class Parser(argparse.ArgumentParser):
    def exit(self, status=0, message=None):
        raise ExitException(status, message)


class Command:
    @classmethod
    def name(cls): raise NotImplementedError()
    @classmethod
    def parser_kwargs(cls): return dict(help=None)
    @classmethod
    def configure_parser(cls, parser): pass
    @classmethod
    def new_monitor(cls): return ConsoleMonitor(stay_in_line=True, progress_bar_size=30)
    def execute(self, command_args): raise NotImplementedError()


class SubCommandCommand(Command):
    @classmethod
    def configure_parser(cls, parser):
        parser.set_defaults(parser=parser)
        subparsers = parser.add_subparsers(metavar='COMMAND')
        cls.configure_parser_and_subparsers(parser, subparsers)


def _make_parser(name, description, version, command_classes, license_text=None, docs_url=None):
    parser = Parser(prog=name, description=description)
    parser.add_argument('--version', action='version', version='%s %s' % (name, version))
    parser.add_argument('--traceback', dest='traceback_mode', action='store_true')
    sub = parser.add_subparsers(dest='command_name', metavar='COMMAND')
    for c in command_classes:
        p = sub.add_parser(c.name(), **c.parser_kwargs())
        c.configure_parser(p)
        p.set_defaults(command_class=c)
    return parser


def run_main(name, description, version, command_classes, license_text=None, docs_url=None, error_message_trimmer=None, args=None):
    parser = _make_parser(name, description, version, command_classes, license_text, docs_url)
    status, message = 0, None
    try:
        a = parser.parse_args(sys.argv[1:] if args is None else args)
        if getattr(a, 'command_name', None) and getattr(a, 'command_class', None):
            a.command_class().execute(a)
        else:
            parser.print_help()
    except ExitException as e:
        status, message = e.status, e.message
    except Exception as e:
        status, message = 1, str(e) or type(e).__name__
    if message:
        (sys.stderr if status else sys.stdout).write('%s: %s\n' % (name, message))
    return status
