"""Driving readers and writers by hand."""
from amazon.ion.core import IonEventType, IonType
from amazon.ion.reader import NEXT_EVENT, SKIP_EVENT, read_data_event


class Ended(object):
    """What became of a reader: 'end' (STREAM_END), 'incomplete' or 'error'."""
    def __init__(self, how, events, exc=None):
        self.how, self.events, self.exc = how, events, exc


def flat(event):
    """The content of an event; computes the value."""
    return (event.event_type, event.ion_type, event.value, event.field_name, tuple(event.annotations), event.depth)


def read_all(reader, data):
    """All events of data given at once."""
    return read_chunks(reader, [data])


def read_chunks(reader, chunks, prod=None):
    out = []
    todo = list(chunks)
    try:
        event = reader.send(NEXT_EVENT)
        while True:
            if event.event_type is IonEventType.STREAM_END or event.event_type is IonEventType.INCOMPLETE:
                if not todo:
                    return Ended('end' if event.event_type is IonEventType.STREAM_END else 'incomplete', out)
                event = reader.send(read_data_event(todo.pop(0)))
            else:
                out.append(flat(event))
                event = reader.send(NEXT_EVENT)
    except Exception as e:
        return Ended('error', out, e)
