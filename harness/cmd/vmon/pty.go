package main

import (
	"fmt"
	"os"
	"syscall"
	"unsafe"
)

// terminal is a new pseudo terminal, in raw mode: what is written to slave is read from master as it is.
func terminal() (master, slave *os.File, err error) {
	ioctl := func(f *os.File, req uintptr, arg unsafe.Pointer) error {
		if _, _, e := syscall.Syscall(syscall.SYS_IOCTL, f.Fd(), req, uintptr(arg)); e != 0 {
			return e
		}
		return nil
	}
	master, err = os.OpenFile("/dev/ptmx", os.O_RDWR|syscall.O_NOCTTY, 0)
	if err != nil {
		return nil, nil, err
	}
	var n, zero int32
	if err = ioctl(master, syscall.TIOCGPTN, unsafe.Pointer(&n)); err == nil {
		err = ioctl(master, syscall.TIOCSPTLCK, unsafe.Pointer(&zero))
	}
	if err == nil {
		slave, err = os.OpenFile(fmt.Sprintf("/dev/pts/%d", n), os.O_RDWR|syscall.O_NOCTTY, 0)
	}
	if err != nil {
		master.Close()
		return nil, nil, err
	}
	var t syscall.Termios
	if err = ioctl(slave, syscall.TCGETS, unsafe.Pointer(&t)); err == nil {
		t.Iflag, t.Oflag, t.Lflag = 0, 0, 0
		t.Cflag = t.Cflag&^(syscall.CSIZE|syscall.PARENB) | syscall.CS8
		t.Cc[syscall.VMIN], t.Cc[syscall.VTIME] = 1, 0
		err = ioctl(slave, syscall.TCSETS, unsafe.Pointer(&t))
	}
	if err != nil {
		master.Close()
		slave.Close()
		return nil, nil, err
	}
	return master, slave, nil
}
