import io
import typing


def write_all(stream: typing.BinaryIO, data: typing.Union[bytes, memoryview]) -> None:
    """Write all of `data` to `stream`

    A raw (unbuffered) stream may accept only a part of the data per call of `write`.
    """

    while True:
        written = stream.write(data)

        if written is None:
            if data and isinstance(stream, io.RawIOBase):
                raise BlockingIOError("Output would block")
            # not a raw stream, accepts everything
            return

        data = memoryview(data)[written:]
        if not data:
            return

        if written == 0:
            raise OSError("Output does not accept any more data")
