# Behaviour-preserving rewrites used to test the checks for false alarms.
# name -> list of (file, old, new); new text may use goimports to fix imports.
R={}
R["a-helpers"]=[
("filetree/filetree.go",'''	cleanPath := filepath.Clean(plainPath)
	if cleanPath == "/" {
		return readFileErr("/ is a directory")
	}

	plainDirPath := filepath.Dir(cleanPath)
	plainFileName := filepath.Base(cleanPath)

	cipherDirPath, err := f.findPath(plainDirPath)
	if err != nil {
		return readFileErr(fmt.Sprintf("error finding parent path: %s", err))
	}

	item, err := f.findInDir(cipherDirPath, plainFileName)
	if err != nil {
		return readFileErr(err.Error())
	}
	ciphertextPath := filepath.Join(cipherDirPath, item.Name())
''','''	cleanPath := filepath.Clean(plainPath)
	if cleanPath == "/" {
		return readFileErr("/ is a directory")
	}
	item, ciphertextPath, err := f.lookup(cleanPath)
	if err != nil {
		return readFileErr(err.Error())
	}
'''),
("filetree/filetree.go",'''func (f *FileTree) WriteFile(''','''// lookup finds the remote entry behind a clean path other than "/".
func (f *FileTree) lookup(cleanPath string) (os.FileInfo, string, error) {
	dir, base := filepath.Dir(cleanPath), filepath.Base(cleanPath)
	cipherDir, err := f.findPath(dir)
	if err != nil {
		return nil, "", fmt.Errorf("error finding parent path: %s", err)
	}
	entry, err := f.findInDir(cipherDir, base)
	if err != nil {
		return nil, "", err
	}
	return entry, filepath.Join(cipherDir, entry.Name()), nil
}

func (f *FileTree) plainInfo(info os.FileInfo, name string) os.FileInfo {
	size := f.cEnc.CipherSizeToPlainSize(uint64(info.Size()))
	return plainFileInfo{FileInfo: info, name: name, size: int64(size)}
}

func (f *FileTree) WriteFile('''),
("filetree/filetree.go",'''		newInfo := plainFileInfo{
			FileInfo: info,
			name:     plainName,
			size:     int64(f.cEnc.CipherSizeToPlainSize(uint64(info.Size()))),
		}
		listing = append(listing, newInfo)
		return false
''','''		listing = append(listing, f.plainInfo(info, plainName))
		return false
'''),
("filetree/filetree.go",'''	cipherPath := f.encryptedRoot
	if cleanPath != "/" {
		// The last component may be a file, which findPath rejects.
		cipherDirPath, err := f.findPath(filepath.Dir(cleanPath))
		if err != nil {
			return statErr(fmt.Sprintf("error finding parent path: %s", err))
		}
		entry, err := f.findInDir(cipherDirPath, plainBaseName)
		if err != nil {
			return statErr(err.Error())
		}
		cipherPath = filepath.Join(cipherDirPath, entry.Name())
	}
''','''	var cipherPath string
	if cleanPath == "/" {
		cipherPath = f.encryptedRoot
	} else {
		var err error
		if _, cipherPath, err = f.lookup(cleanPath); err != nil {
			return statErr(err.Error())
		}
	}
'''),
("filetree/filetree.go",'''	return plainFileInfo{
		FileInfo: item,
		name:     plainBaseName,
		size:     int64(f.cEnc.CipherSizeToPlainSize(uint64(item.Size()))),
	}, nil
''','''	return f.plainInfo(item, plainBaseName), nil
'''),
("backend/provider.go",'''	file, err := c.sftpConn.Open(path)
	if err != nil {
		// Test the underlying ssh connection to see if it's still okay.
		_, _, sshErr := c.sshConn.SendRequest("ping", true, nil)
		if sshErr != nil {
			c.Close()
		} else {
			p.p.Put(c)
		}
		return nil, err
	}
''','''	file, err := c.sftpConn.Open(path)
	if err != nil {
		p.giveBack(c)
		return nil, err
	}
'''),
("backend/provider.go",'''	listing, err := c.sftpConn.ReadDir(path)
	if err != nil {
		// Test the underlying ssh connection to see if it's still okay.
		_, _, sshErr := c.sshConn.SendRequest("ping", true, nil)
		if sshErr != nil {
			c.Close()
		} else {
			p.p.Put(c)
		}
		return nil, err
	}
	p.p.Put(c)
	return listing, nil
''','''	listing, err := c.sftpConn.ReadDir(path)
	if err != nil {
		p.giveBack(c)
		return nil, err
	}
	p.p.Put(c)
	return listing, nil
'''),
("backend/provider.go",'''	stat, err := c.sftpConn.Stat(path)
	if err != nil {
		// Test the underlying ssh connection to see if it's still okay.
		_, _, sshErr := c.sshConn.SendRequest("ping", true, nil)
		if sshErr != nil {
			c.Close()
		} else {
			p.p.Put(c)
		}
		return nil, err
	}
	p.p.Put(c)
	return stat, nil
}
''','''	stat, err := c.sftpConn.Stat(path)
	if err != nil {
		p.giveBack(c)
		return nil, err
	}
	p.p.Put(c)
	return stat, nil
}

// giveBack disposes of a connection on which an operation has failed: it is
// kept if the ssh connection below still answers.
func (p *Provider) giveBack(c *conn) {
	if _, _, err := c.sshConn.SendRequest("ping", true, nil); err == nil {
		p.p.Put(c)
		return
	}
	c.Close()
}
'''),
("requester/requester.go",'''	if !loaded {
		wt := &r.lockers[num]
		responseCh <- wt
		wt.Lock()

		data, err := request()
		cache.Set(key, genCacheEntry{data: data, err: err})

		wt.cv.Broadcast()
		wt.Unlock()
	} else {
		if cacheEntry.data != nil || cacheEntry.err != nil {
			// The work has been done, so just use what's in the cache.
			close(responseCh)
		} else {
			// Otherwise, send the current work ticket for the work.
			wt := &r.lockers[cacheEntry.lockerNum]
			responseCh <- wt
		}
	}
}
''','''	if loaded {
		if cacheEntry.done() {
			// The work has been done, so just use what's in the cache.
			close(responseCh)
			return
		}
		// Otherwise, send the current work ticket for the work.
		responseCh <- &r.lockers[cacheEntry.lockerNum]
		return
	}
	wt := &r.lockers[num]
	responseCh <- wt
	wt.Lock()
	defer wt.Unlock()

	data, err := request()
	cache.Set(key, genCacheEntry{data: data, err: err})
	wt.cv.Broadcast()
}

func (e genCacheEntry) done() bool {
	return e.data != nil || e.err != nil
}
'''),
("requester/makerequest.go",'''	var cache *syncCache
	switch requestType {
	case workReadFile:
		cache = r.fileCache
	case workReadDir:
		cache = r.dirCache
	case workDecryptName:
		cache = r.decryptCache
	default:
		panic("Invalid request type")
	}
	key := arg1
	if requestType == workDecryptName {
		key = complexKey(arg1, arg2)
	}
''','''	cache, key := r.cacheFor(requestType, arg1, arg2)
'''),
("requester/makerequest.go",'''func (r *Requester) makeRequest(''','''// cacheFor returns the cache for the given kind of request and the key the
// answer is kept under.
func (r *Requester) cacheFor(requestType workType, arg1 string, arg2 []byte) (*syncCache, string) {
	switch requestType {
	case workReadFile:
		return r.fileCache, arg1
	case workReadDir:
		return r.dirCache, arg1
	case workDecryptName:
		return r.decryptCache, complexKey(arg1, arg2)
	}
	panic("Invalid request type")
}

func (r *Requester) makeRequest('''),
("requester/makerequest.go",'''			ticket.Lock()
			for {
				cached, found = cache.Get(key)
				dataAvailable := cached.data != nil || cached.err != nil
				wrongLocker := ticket.lockerNum == 0 || cached.lockerNum != ticket.lockerNum

				if !found || dataAvailable || wrongLocker {
					break
				}
				ticket.Wait()
			}

			d, err := cached.data, cached.err
			ticket.Unlock()
''','''			cached, found = waitFor(ticket, cache, key)
			d, err := cached.data, cached.err
'''),
("requester/makerequest.go",'''// cacheFor returns''','''// waitFor waits until the entry for key is no longer being worked on by the
// holder of ticket.
func waitFor(ticket *workTicket, cache *syncCache, key string) (genCacheEntry, bool) {
	ticket.Lock()
	defer ticket.Unlock()
	cached, found := cache.Get(key)
	for found && cached.data == nil && cached.err == nil && ticket.lockerNum != 0 && cached.lockerNum == ticket.lockerNum {
		ticket.Wait()
		cached, found = cache.Get(key)
	}
	return cached, found
}

// cacheFor returns'''),
("filetree/fastcache.go",'''	if d.next != nil {
		if d.prev != nil {
			d.prev.next = d.next
		} else {
			f.head = d.next
		}
		d.next.prev = d.prev
		d.prev = f.last
		d.next = nil
		f.last.next = d
		f.last = d
	}
}
''','''	if d == f.last {
		return
	}
	f.unlink(d)
	f.pushBack(d)
}

// unlink takes a node that is not the last one out of the list.
func (f *FastCache) unlink(d *DirMapping) {
	if d.prev == nil {
		f.head = d.next
	} else {
		d.prev.next = d.next
	}
	d.next.prev = d.prev
}

// pushBack appends a node to a list that is not empty.
func (f *FastCache) pushBack(d *DirMapping) {
	d.prev, d.next = f.last, nil
	f.last.next = d
	f.last = d
}
'''),
("filetree/fastcache.go",'''		if f.head == nil {
			f.head = newNode
			f.last = newNode
		} else {
			newNode.prev = f.last
			f.last.next = newNode
			f.last = newNode
		}
''','''		if f.head == nil {
			f.head, f.last = newNode, newNode
		} else {
			f.pushBack(newNode)
		}
'''),
("gocrypt/nametransform/names.go",'''	if bytes.Contains(bin, []byte{0}) || bytes.Contains(bin, []byte("/")) {
		return "", syscall.EBADMSG
	}
	// The name should never be "." or "..".
	if bytes.Equal(bin, []byte(".")) || bytes.Equal(bin, []byte("..")) {
		return "", syscall.EBADMSG
	}
	plain := string(bin)
	return plain, err
}
''','''	plain := string(bin)
	if !validName(plain) {
		return "", syscall.EBADMSG
	}
	return plain, nil
}

// validName tells whether name can be a component of a path.
func validName(name string) bool {
	switch name {
	case ".", "..":
		return false
	}
	return !strings.ContainsAny(name, "\\x00/")
}
'''),
("gocrypt/nametransform/pad16.go",'''	for i := oldLen - padLen; i < oldLen; i++ {
		if padded[i] != padByte {
			return nil, fmt.Errorf("Padding byte at i=%d is invalid", i)
		}
	}
	newLen := oldLen - padLen
	return padded[0:newLen], nil
''','''	newLen := oldLen - padLen
	for i, b := range padded[newLen:] {
		if b != padByte {
			return nil, fmt.Errorf("Padding byte at i=%d is invalid", newLen+i)
		}
	}
	return padded[:newLen], nil
'''),
("gocrypt/contentenc/content.go",'''	cBuf := bytes.NewBuffer(ciphertext)
	var err error
	pBuf := bytes.NewBuffer(be.PReqPool.Get()[:0])
	blockNo := firstBlockNo
	for cBuf.Len() > 0 {
		cBlock := cBuf.Next(int(be.cipherBS))
		var pBlock []byte
		pBlock, err = be.DecryptBlock(cBlock, blockNo, fileID)
		if err != nil {
			if be.forceDecode && err == stupidgcm.ErrAuth {
				tlog.Warn.Printf("DecryptBlocks: authentication failure in block #%d, overridden by forcedecode", firstBlockNo)
			} else {
				break
			}
		}
		pBuf.Write(pBlock)
		be.pBlockPool.Put(pBlock)
		blockNo++
	}
	return pBuf.Bytes(), err
''','''	cBuf := bytes.NewBuffer(ciphertext)
	var err error
	pBuf := bytes.NewBuffer(be.PReqPool.Get()[:0])
	for blockNo := firstBlockNo; cBuf.Len() > 0; blockNo++ {
		var pBlock []byte
		pBlock, err = be.DecryptBlock(cBuf.Next(int(be.cipherBS)), blockNo, fileID)
		if err != nil && !be.overridden(err, firstBlockNo) {
			break
		}
		pBuf.Write(pBlock)
		be.pBlockPool.Put(pBlock)
	}
	return pBuf.Bytes(), err
}

// overridden tells whether err is ignored because of forcedecode.
func (be *ContentEnc) overridden(err error, firstBlockNo uint64) bool {
	if !be.forceDecode || err != stupidgcm.ErrAuth {
		return false
	}
	tlog.Warn.Printf("DecryptBlocks: authentication failure in block #%d, overridden by forcedecode", firstBlockNo)
	return true
'''),
("gocrypt/contentenc/offsets.go",'''	// Zero-sized files stay zero-sized
	if cipherSize == 0 {
		return 0
	}

	if cipherSize == HeaderLen {
		// This can happen between createHeader() and Write() and is harmless.
		tlog.Debug.Printf("cipherSize %d == header size: interrupted write?\\n", cipherSize)
		return 0
	}

	if cipherSize < HeaderLen {
		tlog.Warn.Printf("cipherSize %d < header size %d: corrupt file\\n", cipherSize, HeaderLen)
		return 0
	}
''','''	switch {
	case cipherSize == 0:
		// Zero-sized files stay zero-sized
		return 0
	case cipherSize < HeaderLen:
		tlog.Warn.Printf("cipherSize %d < header size %d: corrupt file\\n", cipherSize, HeaderLen)
		return 0
	case cipherSize == HeaderLen:
		// This can happen between createHeader() and Write() and is harmless.
		tlog.Debug.Printf("cipherSize %d == header size: interrupted write?\\n", cipherSize)
		return 0
	}
'''),
("gocrypt/contentenc/file_header.go",'''	var h FileHeader
	h.Version = binary.BigEndian.Uint16(buf[0:headerVersionLen])
	if h.Version''','''	h := FileHeader{Version: binary.BigEndian.Uint16(buf)}
	if h.Version'''),
("gocrypt/configfile/config_file.go",'''	// Check that all set feature flags are known
	for _, flag := range cf.FeatureFlags {
		if !cf.isFeatureFlagKnown(flag) {
			return nil, fmt.Errorf("Unsupported feature flag %q", flag)
		}
	}
''','''	if err := cf.checkFlags(); err != nil {
		return nil, err
	}
'''),
("gocrypt/configfile/config_file.go",'''// DecryptMasterKey decrypts''','''// checkFlags checks that all set feature flags are known
func (cf *ConfFile) checkFlags() error {
	for i := 0; i < len(cf.FeatureFlags); i++ {
		if flag := cf.FeatureFlags[i]; !cf.isFeatureFlagKnown(flag) {
			return fmt.Errorf("Unsupported feature flag %q", flag)
		}
	}
	return nil
}

func wipe(b []byte) {
	for i := range b {
		b[i] = 0
	}
}

// DecryptMasterKey decrypts'''),
("gocrypt/configfile/config_file.go",'''	// Purge scrypt-derived key
	for i := range scryptHash {
		scryptHash[i] = 0
	}
	scryptHash = nil
	ce.Wipe()
	ce = nil

	if err''','''	// Purge scrypt-derived key
	wipe(scryptHash)
	ce.Wipe()

	if err'''),
("gocrypt/configfile/scrypt.go",'''	minN := 1 << scryptMinLogN
	if s.N < minN {
		tlog.Fatal.Println("Fatal: scryptn below 10 is too low to make sense")
		os.Exit(exitcodes.ScryptParams)
	}
''','''	if s.N < 1<<scryptMinLogN {
		refuse("Fatal: scryptn below 10 is too low to make sense")
	}
'''),
("gocrypt/configfile/scrypt.go",'''// validateParams checks''','''func refuse(msg string) {
	tlog.Fatal.Println(msg)
	os.Exit(exitcodes.ScryptParams)
}

// validateParams checks'''),
("gocrypt/cryptocore/randprefetch.go",'''	// Buffer was empty -> re-fill
	fresh := <-r.refill
	if len(fresh) != prefetchN {
		log.Panicf("randPrefetcher: refill: got %d bytes instead of %d", len(fresh), prefetchN)
	}
	r.buf.Reset()
	r.buf.Write(fresh)
	have''','''	// Buffer was empty -> re-fill
	r.refillLocked()
	have'''),
("gocrypt/cryptocore/randprefetch.go",'''func (r *randPrefetcherT) refillWorker()''','''func (r *randPrefetcherT) refillLocked() {
	fresh := <-r.refill
	if n := len(fresh); n != prefetchN {
		log.Panicf("randPrefetcher: refill: got %d bytes instead of %d", n, prefetchN)
	}
	r.buf.Reset()
	r.buf.Write(fresh)
}

func (r *randPrefetcherT) refillWorker()'''),
("config/config.go",'''	if isPrivateKeyEncrypted(privateBytes) {
		for i := 0; i < 3; i++ {
			prompt := fmt.Sprintf("Enter passphrase for key '%s': ", c.Remote.PrivateKeyPath)
			passphrase, err := pwReader.ReadPassword(prompt)
			if err != nil {
				return nil, err
			}
			signer, err := ssh.ParsePrivateKeyWithPassphrase(privateBytes, []byte(passphrase))
			if err == nil {
				return signer, nil
			} else if err != x509.IncorrectPasswordError {
				return nil, err
			}
		}
		return nil, x509.IncorrectPasswordError
	}

	return ssh.ParsePrivateKey(privateBytes)
''','''	if !isPrivateKeyEncrypted(privateBytes) {
		return ssh.ParsePrivateKey(privateBytes)
	}
	const attempts = 3
	prompt := fmt.Sprintf("Enter passphrase for key '%s': ", c.Remote.PrivateKeyPath)
	for left := attempts; left > 0; left-- {
		passphrase, err := pwReader.ReadPassword(prompt)
		if err != nil {
			return nil, err
		}
		signer, err := ssh.ParsePrivateKeyWithPassphrase(privateBytes, passphrase)
		switch err {
		case nil:
			return signer, nil
		case x509.IncorrectPasswordError:
			continue
		default:
			return nil, err
		}
	}
	return nil, x509.IncorrectPasswordError
'''),
("handlers/decrypt.go",'''	switch req.Method {
	case "Setstat":
		// Probably will never support
		return fmt.Errorf("Setstat not supported. path: %s", req.Filepath)
	case "Rename":
		return fmt.Errorf("Renaming not supported. path: %s, target: %s", req.Filepath, req.Target)
''','''	if req.Method == "Setstat" {
		// Probably will never support
		return fmt.Errorf("Setstat not supported. path: %s", req.Filepath)
	}
	switch req.Method {
	case "Rename":
		return fmt.Errorf("Renaming not supported. path: %s, target: %s", req.Filepath, req.Target)
'''),
("main.go",'''	cfg, err := config.LoadConfig(configPath)
	if err != nil {
		log.Fatalln("error loading config file:", err)
	}
	if err := cfg.Validate(); err != nil {
		log.Fatalln("invalid config:", err)
	}
''','''	cfg := mustConfig(configPath)
'''),
("main.go",'''func handleChannels(''','''func mustConfig(path string) *config.Config {
	cfg, err := config.LoadConfig(path)
	if err != nil {
		log.Fatalln("error loading config file:", err)
	}
	if err = cfg.Validate(); err != nil {
		log.Fatalln("invalid config:", err)
	}
	return cfg
}

func handleChannels('''),
]

R["b-loops"] = [
("gocrypt/contentenc/offsets.go",'''	var blocks []IntraBlock
	var nextBlock IntraBlock
	nextBlock.fs = be

	for length > 0 {
		nextBlock.BlockNo = be.PlainOffToBlockNo(offset)
		nextBlock.Skip = offset - be.BlockNoToPlainOff(nextBlock.BlockNo)

		// Minimum of remaining plaintext data and remaining space in the block
		nextBlock.Length = MinUint64(length, be.plainBS-nextBlock.Skip)

		blocks = append(blocks, nextBlock)
		offset += nextBlock.Length
		length -= nextBlock.Length
	}
	return blocks
''','''	var blocks []IntraBlock
	for length > 0 {
		skip := offset % be.plainBS
		// Minimum of remaining plaintext data and remaining space in the block
		n := MinUint64(be.plainBS-skip, length)
		blocks = append(blocks, IntraBlock{
			BlockNo: offset / be.plainBS,
			Skip:    skip,
			Length:  n,
			fs:      be,
		})
		offset, length = offset+n, length-n
	}
	return blocks
'''),
("gocrypt/contentenc/offsets.go",'''	for length > 0 {
		nextBlock.BlockNo = be.CipherOffToBlockNo(offset)
		nextBlock.Skip = offset - be.BlockNoToCipherOff(nextBlock.BlockNo)

		// This block can carry up to "maxLen" payload bytes
		maxLen := be.cipherBS - nextBlock.Skip
		nextBlock.Length = maxLen
		// But if the user requested less, we truncate the block to "length".
		if length < maxLen {
			nextBlock.Length = length
		}

		blocks = append(blocks, nextBlock)
		offset += nextBlock.Length
		length -= nextBlock.Length
	}
''','''	for {
		if length == 0 {
			break
		}
		nextBlock.BlockNo = be.CipherOffToBlockNo(offset)
		nextBlock.Skip = offset - be.BlockNoToCipherOff(nextBlock.BlockNo)
		nextBlock.Length = MinUint64(length, be.cipherBS-nextBlock.Skip)

		length -= nextBlock.Length
		offset += nextBlock.Length
		blocks = append(blocks, nextBlock)
	}
'''),
("gocrypt/contentenc/offsets.go",'''	// Block number at last byte
	blockNo := be.CipherOffToBlockNo(cipherSize - 1)
	blockCount := blockNo + 1

	overhead := be.BlockOverhead()*blockCount + HeaderLen
''','''	blockCount := (cipherSize-HeaderLen-1)/be.cipherBS + 1
	overhead := HeaderLen + blockCount*be.BlockOverhead()
'''),
("gocrypt/contentenc/offsets.go",'''	// Block number at last byte
	blockNo := be.PlainOffToBlockNo(plainSize - 1)
	blockCount := blockNo + 1

	overhead := be.BlockOverhead()*blockCount + HeaderLen

	return plainSize + overhead
''','''	full, rest := plainSize/be.plainBS, plainSize%be.plainBS
	size := HeaderLen + full*be.cipherBS
	if rest > 0 {
		size += rest + be.BlockOverhead()
	}
	return size
'''),
("gocrypt/contentenc/intrablock.go",'''	lenHave := len(d)
	lenWant := int(ib.Skip + ib.Length)
	if lenHave < lenWant {
		return d[ib.Skip:lenHave]
	}
	return d[ib.Skip:lenWant]
''','''	end := int(ib.Skip + ib.Length)
	if end > len(d) {
		end = len(d)
	}
	return d[ib.Skip:end]
'''),
("gocrypt/contentenc/intrablock.go",'''	if ib.Skip > 0 || ib.Length < ib.fs.plainBS {
		return true
	}
	return false
''','''	return ib.Skip != 0 || ib.Length < ib.fs.plainBS
'''),
("gocrypt/contentenc/intrablock.go",'''	firstBlock := blocks[0]
	lastBlock := blocks[len(blocks)-1]

	offset = ib.fs.BlockNoToCipherOff(firstBlock.BlockNo)
	offsetLast := ib.fs.BlockNoToCipherOff(lastBlock.BlockNo)
	length = offsetLast + ib.fs.cipherBS - offset

	return offset, length
''','''	first, last := blocks[0].BlockNo, blocks[len(blocks)-1].BlockNo
	return ib.fs.BlockNoToCipherOff(first), (last - first + 1) * ib.fs.cipherBS
'''),
("gocrypt/contentenc/content.go",'''	const lenUint64 = 8
	// Preallocate space to save an allocation in append()
	aData = make([]byte, lenUint64, lenUint64+headerIDLen)
	binary.BigEndian.PutUint64(aData, blockNo)
	aData = append(aData, fileID...)
	return aData
''','''	const lenUint64 = 8
	aData = make([]byte, lenUint64+len(fileID))
	copy(aData[lenUint64:], fileID)
	binary.BigEndian.PutUint64(aData[:lenUint64], blockNo)
	return
'''),
("gocrypt/contentenc/content.go",'''	cBuf := bytes.NewBuffer(ciphertext)
	var err error
	pBuf := bytes.NewBuffer(be.PReqPool.Get()[:0])
	blockNo := firstBlockNo
	for cBuf.Len() > 0 {
		cBlock := cBuf.Next(int(be.cipherBS))
		var pBlock []byte
		pBlock, err = be.DecryptBlock(cBlock, blockNo, fileID)
		if err != nil {
			if be.forceDecode && err == stupidgcm.ErrAuth {
				tlog.Warn.Printf("DecryptBlocks: authentication failure in block #%d, overridden by forcedecode", firstBlockNo)
			} else {
				break
			}
		}
		pBuf.Write(pBlock)
		be.pBlockPool.Put(pBlock)
		blockNo++
	}
	return pBuf.Bytes(), err
''','''	var err error
	plaintext := be.PReqPool.Get()[:0]
	blockNo := firstBlockNo
	for len(ciphertext) > 0 {
		n := len(ciphertext)
		if n > int(be.cipherBS) {
			n = int(be.cipherBS)
		}
		cBlock := ciphertext[:n]
		ciphertext = ciphertext[n:]
		var pBlock []byte
		pBlock, err = be.DecryptBlock(cBlock, blockNo, fileID)
		if err != nil {
			if !be.forceDecode || err != stupidgcm.ErrAuth {
				return plaintext, err
			}
			tlog.Warn.Printf("DecryptBlocks: authentication failure in block #%d, overridden by forcedecode", firstBlockNo)
		}
		plaintext = append(plaintext, pBlock...)
		be.pBlockPool.Put(pBlock)
		blockNo++
	}
	return plaintext, err
'''),
("gocrypt/contentenc/content.go",'''	cBlock := be.cBlockPool.Get()
	copy(cBlock, nonce)
	cBlock = cBlock[0:len(nonce)]
''','''	cBlock := append(be.cBlockPool.Get()[:0], nonce...)
'''),
("gocrypt/contentenc/content.go",'''	nonce := ciphertext[:be.cryptoCore.IVLen]
	if bytes.Equal(nonce, be.allZeroNonce) {
		// Bug in tmpfs?
		// https://github.com/rfjakob/gocryptfs/issues/56
		// http://www.spinics.net/lists/kernel/msg2370127.html
		return nil, errors.New("all-zero nonce")
	}
	ciphertextOrig := ciphertext
	ciphertext = ciphertext[be.cryptoCore.IVLen:]

	// Decrypt
	plaintext := be.pBlockPool.Get()
	plaintext = plaintext[:0]
	aData := concatAD(blockNo, fileID)
	plaintext, err := be.cryptoCore.AEADCipher.Open(plaintext, nonce, ciphertext, aData)

	if err != nil {
		tlog.Debug.Printf("DecryptBlock: %s, len=%d", err.Error(), len(ciphertextOrig))
		tlog.Debug.Println(hex.Dump(ciphertextOrig))
		if be.forceDecode && err == stupidgcm.ErrAuth {
			return plaintext, err
		}
		return nil, err
	}

	return plaintext, nil
''','''	ivLen := be.cryptoCore.IVLen
	nonce, payload := ciphertext[:ivLen], ciphertext[ivLen:]
	if bytes.Equal(nonce, be.allZeroNonce) {
		// Bug in tmpfs?
		return nil, errors.New("all-zero nonce")
	}

	// Decrypt
	aData := concatAD(blockNo, fileID)
	plaintext, err := be.cryptoCore.AEADCipher.Open(be.pBlockPool.Get()[:0], nonce, payload, aData)
	if err == nil {
		return plaintext, nil
	}
	tlog.Debug.Printf("DecryptBlock: %s, len=%d", err.Error(), len(ciphertext))
	tlog.Debug.Println(hex.Dump(ciphertext))
	if be.forceDecode && err == stupidgcm.ErrAuth {
		return plaintext, err
	}
	return nil, err
'''),
("gocrypt/contentenc/content.go",'''	// Make block of maximum size
	out := make([]byte, be.plainBS)

	// Copy old and new data into it
	copy(out, oldData)
	l := len(newData)
	copy(out[offset:offset+l], newData)

	// Crop to length
	outLen := len(oldData)
	newLen := offset + len(newData)
	if outLen < newLen {
		outLen = newLen
	}
	return out[0:outLen]
''','''	// Crop to length
	end := offset + len(newData)
	outLen := end
	if len(oldData) > outLen {
		outLen = len(oldData)
	}

	// Copy old and new data into a block of maximum size
	out := make([]byte, be.plainBS)
	copy(out, oldData)
	copy(out[offset:end], newData)
	return out[:outLen]
'''),
("gocrypt/contentenc/file_header.go",'''	buf := make([]byte, HeaderLen)
	binary.BigEndian.PutUint16(buf[0:headerVersionLen], h.Version)
	copy(buf[headerVersionLen:], h.ID)
	return buf

''','''	buf := make([]byte, headerVersionLen, HeaderLen)
	binary.BigEndian.PutUint16(buf, h.Version)
	return append(buf, h.ID...)
'''),
("gocrypt/contentenc/file_header.go",'''	var h FileHeader
	h.Version = CurrentVersion
	h.ID = cryptocore.RandBytes(headerIDLen)
	return &h
''','''	return &FileHeader{
		Version: CurrentVersion,
		ID:      cryptocore.RandBytes(headerIDLen),
	}
'''),
("gocrypt/nametransform/pad16.go",'''	newLen := oldLen + padLen
	padded = make([]byte, newLen)
	copy(padded, orig)
	padByte := byte(padLen)
	for i := oldLen; i < newLen; i++ {
		padded[i] = padByte
	}
	return padded
''','''	padded = append([]byte{}, orig...)
	return append(padded, bytes.Repeat([]byte{byte(padLen)}, padLen)...)
'''),
("gocrypt/nametransform/pad16.go",'''	for i := oldLen - padLen; i < oldLen; i++ {
		if padded[i] != padByte {
			return nil, fmt.Errorf("Padding byte at i=%d is invalid", i)
		}
	}
	newLen := oldLen - padLen
	return padded[0:newLen], nil
''','''	newLen := oldLen - padLen
	for i := oldLen - 2; i >= newLen; i-- {
		if padded[i] != padByte {
			return nil, fmt.Errorf("Padding byte at i=%d is invalid", i)
		}
	}
	return padded[:newLen], nil
'''),
("gocrypt/nametransform/names.go",'''	// A name can never contain a null byte or "/". Make sure we never return those
	// to the kernel, even when we read a corrupted (or fuzzed) filesystem.
	if bytes.Contains(bin, []byte{0}) || bytes.Contains(bin, []byte("/")) {
		return "", syscall.EBADMSG
	}
	// The name should never be "." or "..".
	if bytes.Equal(bin, []byte(".")) || bytes.Equal(bin, []byte("..")) {
		return "", syscall.EBADMSG
	}
	plain := string(bin)
	return plain, err
''','''	// A name can never contain a null byte or "/". Make sure we never return those
	// to the kernel, even when we read a corrupted (or fuzzed) filesystem.
	for _, c := range bin {
		if c == 0 || c == '/' {
			return "", syscall.EBADMSG
		}
	}
	// The name should never be "." or "..".
	plain := string(bin)
	if plain == "." || plain == ".." {
		return "", syscall.EBADMSG
	}
	return plain, nil
'''),
("filetree/filetree.go",'''	for _, info := range dirListing {
		rName, err := f.reqCacher.DecryptName(info.Name(), iv)
		if err != nil {
			continue
		}
		exit := fn(info, rName)
		if exit {
			break
		}
	}
	return nil
''','''	for i := 0; i < len(dirListing); i++ {
		info := dirListing[i]
		if rName, err := f.reqCacher.DecryptName(info.Name(), iv); err == nil {
			if fn(info, rName) {
				return nil
			}
		}
	}
	return nil
'''),
("filetree/filetree.go",'''		if plainName == decryptedName {
			item = info
			return true
		}
		return false
	})
	if err != nil {
		return nil, fmt.Errorf("error iterating %s: %s", cipherPath, err)
	}
	if item == nil {
		return nil, fmt.Errorf("%s not found in %s", plainName, cipherPath)
	}
	return
''','''		if plainName != decryptedName {
			return false
		}
		item = info
		return true
	})
	switch {
	case err != nil:
		return nil, fmt.Errorf("error iterating %s: %s", cipherPath, err)
	case item == nil:
		return nil, fmt.Errorf("%s not found in %s", plainName, cipherPath)
	}
	return item, nil
'''),
("filetree/filetree.go",'''	cleanPath := filepath.Clean(plainPath)

	plainBaseName := filepath.Base(cleanPath)
	cipherPath := f.encryptedRoot
	if cleanPath != "/" {
		// The last component may be a file, which findPath rejects.
		cipherDirPath, err := f.findPath(filepath.Dir(cleanPath))
		if err != nil {
			return statErr(fmt.Sprintf("error finding parent path: %s", err))
		}
		entry, err := f.findInDir(cipherDirPath, plainBaseName)
		if err != nil {
			return statErr(err.Error())
		}
		cipherPath = filepath.Join(cipherDirPath, entry.Name())
	}
''','''	var cipherPath string
	cleanPath := filepath.Clean(plainPath)
	plainBaseName := filepath.Base(cleanPath)
	if cleanPath == "/" {
		cipherPath = f.encryptedRoot
	} else {
		// The last component may be a file, which findPath rejects.
		parent, err := f.findPath(filepath.Dir(cleanPath))
		if err != nil {
			return statErr("error finding parent path: " + err.Error())
		}
		entry, err := f.findInDir(parent, plainBaseName)
		if err != nil {
			return statErr(err.Error())
		}
		cipherPath = filepath.Join(parent, entry.Name())
	}
'''),
("filetree/filetree.go",'''	dirMapping, found := f.fastCache.Find(cleanPath)
	if found {
		return dirMapping.CiphertextPath, nil
	}

	plainParentPath := filepath.Dir(cleanPath)
	plainDirName := filepath.Base(cleanPath)
	cipherParentPath, err := f.findPath(plainParentPath)
''','''	if m, ok := f.fastCache.Find(cleanPath); ok {
		return m.CiphertextPath, nil
	}

	plainDirName := filepath.Base(cleanPath)
	cipherParentPath, err := f.findPath(filepath.Dir(cleanPath))
'''),
("filetree/filetree.go",'''	for i := range masterKey {
		masterKey[i] = 0
	}

	masterKey = nil

	reqCacher := requester.New(numWorkers, fsAccessor, nameTransform)
	reqCacher.Start()
	return &FileTree{
		encryptedRoot: encryptedRoot,
		masterKey:     masterKey,
''','''	for i := 0; i < len(masterKey); i++ {
		masterKey[i] = 0
	}

	reqCacher := requester.New(numWorkers, fsAccessor, nameTransform)
	reqCacher.Start()
	return &FileTree{
		encryptedRoot: encryptedRoot,
'''),
("filetree/decrypt.go",'''	fileID, err := f.readFileID(fileBytes)
	if err == io.EOF {
		// Nothing behind the header: an empty file.
		return []byte{}, nil
	}
	if err != nil {
		return nil, err
	}
''','''	fileID, err := f.readFileID(fileBytes)
	switch err {
	case nil:
	case io.EOF:
		// Nothing behind the header: an empty file.
		return []byte{}, nil
	default:
		return nil, err
	}
'''),
("filetree/fastcache.go",'''	d, found := f.storage[pPath]
	if !found {
		return DirMapping{}, false
	}
	f.refreshNode(d)
	return *d, found
''','''	if d, found := f.storage[pPath]; found {
		f.refreshNode(d)
		return *d, true
	}
	return DirMapping{}, false
'''),
("filetree/fastcache.go",'''	f.count++
	if f.count > f.cacheSize {
		// Reuse old allocated resource if we're at the cache limit
		oldHeadPath := f.head.PlaintextPath
		d := f.head
		f.refreshNode(d)
		d.PlaintextPath = pPath
		d.CiphertextPath = cPath
		f.count = f.cacheSize
		delete(f.storage, oldHeadPath)
		f.storage[pPath] = d
	} else {
		newNode''','''	if f.count >= f.cacheSize {
		// Reuse old allocated resource if we're at the cache limit
		d := f.head
		delete(f.storage, d.PlaintextPath)
		f.refreshNode(d)
		d.PlaintextPath, d.CiphertextPath = pPath, cPath
		f.storage[pPath] = d
	} else {
		f.count++
		newNode'''),
("handlers/proxy.go",'''	var n int
	if offset >= int64(len(f)) {
		return 0, io.EOF
	}
	n = copy(ls, f[offset:])
	if n < len(ls) {
		return n, io.EOF
	}
	return n, nil
''','''	if int64(len(f)) <= offset {
		return 0, io.EOF
	}
	rest := f[offset:]
	if len(rest) < len(ls) {
		return copy(ls, rest), io.EOF
	}
	return copy(ls, rest), nil
'''),
("handlers/decrypt.go",'''	switch req.Method {
	case "List":
		fileList, err := p.ft.ReadDir(req.Filepath)
		if err != nil {
			return nil, err
		}
		return listerat(fileList), nil
	case "Stat":
		fileInfo, err := p.ft.Stat(req.Filepath)
		if err != nil {
			return nil, err
		}
		return listerat([]os.FileInfo{fileInfo}), nil
	case "Readlink":
		return nil, fmt.Errorf("ReadLink not supported. path: %s", req.Filepath)
	}
	return nil, nil
''','''	var infos []os.FileInfo
	switch req.Method {
	case "List":
		fileList, err := p.ft.ReadDir(req.Filepath)
		if err != nil {
			return nil, err
		}
		infos = fileList
	case "Stat":
		fileInfo, err := p.ft.Stat(req.Filepath)
		if err != nil {
			return nil, err
		}
		infos = append(infos, fileInfo)
	case "Readlink":
		return nil, fmt.Errorf("ReadLink not supported. path: %s", req.Filepath)
	default:
		return nil, nil
	}
	return listerat(infos), nil
'''),
("requester/synccache.go",'''	keysToDelete := []string{}
	s.lock.RLock()
	for k := range s.m {
		keysToDelete = append(keysToDelete, k)
	}
	s.lock.RUnlock()
	s.lock.Lock()
	for _, k := range keysToDelete {
		delete(s.m, k)
	}
	s.lock.Unlock()
''','''	s.lock.Lock()
	defer s.lock.Unlock()
	for k := range s.m {
		delete(s.m, k)
	}
'''),
("requester/synccache.go",'''	s.lock.Lock()
	cacheEntry, loaded := s.m[key]
	if !loaded {
		s.m[key] = value
	}
	s.lock.Unlock()
	return cacheEntry, loaded
''','''	s.lock.Lock()
	defer s.lock.Unlock()
	if cacheEntry, loaded := s.m[key]; loaded {
		return cacheEntry, true
	}
	s.m[key] = value
	return genCacheEntry{}, false
'''),
("requester/complexkey.go",'''	return fmt.Sprintf("%s+%x", s, b)
''','''	return s + "+" + hex.EncodeToString(b)
'''),
("requester/readfile.go",'''	if d != nil {
		return d.([]byte), err
	}
	return nil, err
''','''	if err != nil {
		return nil, err
	}
	return d.([]byte), nil
'''),
("requester/requester.go",'''	for i := 0; i < numWorkers+1; i++ {
		l := &r.lockers[i]
		l.cv = sync.NewCond(&l.mtx)
		l.lockerNum = i
	}
''','''	for i := range r.lockers {
		r.lockers[i].lockerNum = i
		r.lockers[i].cv = sync.NewCond(&r.lockers[i].mtx)
	}
'''),
("requester/requester.go",'''	cacheEntry, loaded := cache.GetOrInsert(key, genCacheEntry{lockerNum: num})
	if !loaded {
		wt := &r.lockers[num]
		responseCh <- wt
		wt.Lock()

		data, err := request()
		cache.Set(key, genCacheEntry{data: data, err: err})

		wt.cv.Broadcast()
		wt.Unlock()
	} else {
		if cacheEntry.data != nil || cacheEntry.err != nil {
			// The work has been done, so just use what's in the cache.
			close(responseCh)
		} else {
			// Otherwise, send the current work ticket for the work.
			wt := &r.lockers[cacheEntry.lockerNum]
			responseCh <- wt
		}
	}
''','''	cacheEntry, loaded := cache.GetOrInsert(key, genCacheEntry{lockerNum: num})
	if loaded {
		if cacheEntry.data == nil && cacheEntry.err == nil {
			// Send the current work ticket for the work.
			responseCh <- &r.lockers[cacheEntry.lockerNum]
			return
		}
		// The work has been done, so just use what's in the cache.
		close(responseCh)
		return
	}
	wt := &r.lockers[num]
	responseCh <- wt
	wt.Lock()
	defer wt.Unlock()
	defer wt.cv.Broadcast()
	data, err := request()
	cache.Set(key, genCacheEntry{data: data, err: err})
'''),
("backend/pool.go",'''	select {
	case c := <-p.conns:
		if c == nil {
			return nil, errors.New("pool is closed")
		}
		return c, nil
	default:
		return newConn(p.remoteAddr, p.clientConfig)
	}
''','''	var c *conn
	select {
	case c = <-p.conns:
	default:
		return newConn(p.remoteAddr, p.clientConfig)
	}
	if c == nil {
		return nil, errors.New("pool is closed")
	}
	return c, nil
'''),
("backend/provider.go",'''	defer p.p.Put(c)
	defer func() { _ = file.Close() }()
	buf := new(bytes.Buffer)
	_, err = file.WriteTo(buf)
	if err != nil {
		return nil, err
	}
	return buf.Bytes(), nil
''','''	var buf bytes.Buffer
	_, err = file.WriteTo(&buf)
	_ = file.Close()
	p.p.Put(c)
	if err != nil {
		return nil, err
	}
	return buf.Bytes(), nil
'''),
("gocrypt/cryptocore/cryptocore.go",'''		var emeBlockCipher cipher.Block
		if useHKDF {
			emeKey := hkdfDerive(key, hkdfInfoEMENames, KeyLen)
			emeBlockCipher, err = aes.NewCipher(emeKey)
			for i := range emeKey {
				emeKey[i] = 0
			}
		} else {
			emeBlockCipher, err = aes.NewCipher(key)
		}
''','''		var emeKey []byte
		if useHKDF {
			emeKey = hkdfDerive(key, hkdfInfoEMENames, KeyLen)
		} else {
			emeKey = append([]byte{}, key...)
		}
		var emeBlockCipher cipher.Block
		emeBlockCipher, err = aes.NewCipher(emeKey)
		for i := range emeKey {
			emeKey[i] = 0
		}
'''),
("gocrypt/cryptocore/randprefetch.go",'''	have, err := r.buf.Read(out)
	if have == want && err == nil {
		r.Unlock()
		return out
	}
''','''	defer r.Unlock()
	have, err := r.buf.Read(out)
	if have == want && err == nil {
		return out
	}
'''),
("gocrypt/cryptocore/randprefetch.go",'''		log.Panicf("randPrefetcher could not satisfy read: have=%d want=%d err=%v", have, want, err)
	}
	r.Unlock()
''','''		log.Panicf("randPrefetcher could not satisfy read: have=%d want=%d err=%v", have, want, err)
	}
'''),
("config/config.go",'''		for i := 0; i < 3; i++ {
			prompt := fmt.Sprintf("Enter passphrase for key '%s': ", c.Remote.PrivateKeyPath)
			passphrase, err := pwReader.ReadPassword(prompt)
			if err != nil {
				return nil, err
			}
			signer, err := ssh.ParsePrivateKeyWithPassphrase(privateBytes, []byte(passphrase))
			if err == nil {
				return signer, nil
			} else if err != x509.IncorrectPasswordError {
				return nil, err
			}
		}
		return nil, x509.IncorrectPasswordError
''','''		prompt := fmt.Sprintf("Enter passphrase for key '%s': ", c.Remote.PrivateKeyPath)
		for left := 3; left > 0; left-- {
			passphrase, err := pwReader.ReadPassword(prompt)
			if err != nil {
				return nil, err
			}
			signer, err := ssh.ParsePrivateKeyWithPassphrase(privateBytes, passphrase)
			if err != x509.IncorrectPasswordError {
				return signer, err
			}
		}
		return nil, x509.IncorrectPasswordError
'''),
]

R["c-structure"] = [
("filetree/filetree.go",'''	var listing []os.FileInfo

	err = f.rangeInDir(ciphertextPath, func(info os.FileInfo, plainName string) bool {
		newInfo := plainFileInfo{
			FileInfo: info,
			name:     plainName,
			size:     int64(f.cEnc.CipherSizeToPlainSize(uint64(info.Size()))),
		}
		listing = append(listing, newInfo)
		return false
	})
	if err != nil {
		return readDirErr(fmt.Sprintf("error listing directory %s: %s", ciphertextPath, err))
	}
	return listing, nil
''','''	iv, entries, err := f.listDir(ciphertextPath)
	if err != nil {
		return readDirErr(fmt.Sprintf("error listing directory %s: %s", ciphertextPath, err))
	}
	var listing []os.FileInfo
	for _, info := range entries {
		plainName, err := f.reqCacher.DecryptName(info.Name(), iv)
		if err != nil {
			continue
		}
		listing = append(listing, plainFileInfo{
			FileInfo: info,
			name:     plainName,
			size:     int64(f.cEnc.CipherSizeToPlainSize(uint64(info.Size()))),
		})
	}
	return listing, nil
'''),
("filetree/filetree.go",'''type listDirFn func(info os.FileInfo, plainName string) (exit bool)

// rangeInDir iterates through all the files/directory located at the real
// encrypted path given by cipherPath. It passes the file info and decrypted to the
// listDirFn, which is the operation to run for each iteration. If the fn
// returns true, then the iteration will exit before the end of the iteration.
func (f *FileTree) rangeInDir(cipherPath string, fn listDirFn) error {
	iv, err := f.reqCacher.ReadFile(filepath.Join(cipherPath, "gocryptfs.diriv"))
	if err != nil {
		return fmt.Errorf("error reading directory IV: %s", err)
	}
	dirListing, err := f.reqCacher.ReadDir(cipherPath)
	if err != nil {
		return fmt.Errorf("error listing directory: %s", err)
	}
	for _, info := range dirListing {
		rName, err := f.reqCacher.DecryptName(info.Name(), iv)
		if err != nil {
			continue
		}
		exit := fn(info, rName)
		if exit {
			break
		}
	}
	return nil
}
''','''// listDir returns the IV and the entries of the directory located at the real
// encrypted path given by cipherPath.
func (f *FileTree) listDir(cipherPath string) ([]byte, []os.FileInfo, error) {
	iv, err := f.reqCacher.ReadFile(filepath.Join(cipherPath, "gocryptfs.diriv"))
	if err != nil {
		return nil, nil, fmt.Errorf("error reading directory IV: %s", err)
	}
	dirListing, err := f.reqCacher.ReadDir(cipherPath)
	if err != nil {
		return nil, nil, fmt.Errorf("error listing directory: %s", err)
	}
	return iv, dirListing, nil
}
'''),
("filetree/filetree.go",'''	err = f.rangeInDir(cipherPath, func(info os.FileInfo, decryptedName string) bool {
		if plainName == decryptedName {
			item = info
			return true
		}
		return false
	})
	if err != nil {
		return nil, fmt.Errorf("error iterating %s: %s", cipherPath, err)
	}
	if item == nil {
		return nil, fmt.Errorf("%s not found in %s", plainName, cipherPath)
	}
	return
''','''	iv, entries, err := f.listDir(cipherPath)
	if err != nil {
		return nil, fmt.Errorf("error iterating %s: %s", cipherPath, err)
	}
	for _, info := range entries {
		decryptedName, err := f.reqCacher.DecryptName(info.Name(), iv)
		if err == nil && decryptedName == plainName && info != nil {
			return info, nil
		}
	}
	return nil, fmt.Errorf("%s not found in %s", plainName, cipherPath)
'''),
("filetree/filetree.go",'''	confPath := filepath.Join(encryptedRoot, "gocryptfs.conf")
	confBytes, err := fsAccessor.ReadFile(confPath)
	if err != nil {
		return nil, err
	}
	f, err := ioutil.TempFile("", "gocryptfs.conf")
	if err != nil {
		return nil, err
	}
	defer os.Remove(f.Name())
	if _, err = f.Write(confBytes); err != nil {
		return nil, err
	}
	if err = f.Close(); err != nil {
		return nil, err
	}
	masterKey, conf, err := configfile.LoadAndDecrypt(f.Name(), password)
	if err != nil {
		return nil, err
	}
''','''	masterKey, conf, err := loadConf(encryptedRoot, password, fsAccessor)
	if err != nil {
		return nil, err
	}
'''),
("filetree/filetree.go",'''func (f *FileTree) WriteFile(''','''// loadConf fetches the gocryptfs config of the root and unlocks its master key.
func loadConf(root string, password []byte, fsAccessor FSAccessor) ([]byte, *configfile.ConfFile, error) {
	confBytes, err := fsAccessor.ReadFile(filepath.Join(root, "gocryptfs.conf"))
	if err != nil {
		return nil, nil, err
	}
	f, err := ioutil.TempFile("", "gocryptfs.conf")
	if err != nil {
		return nil, nil, err
	}
	defer os.Remove(f.Name())
	if _, err = f.Write(confBytes); err != nil {
		return nil, nil, err
	}
	if err = f.Close(); err != nil {
		return nil, nil, err
	}
	return configfile.LoadAndDecrypt(f.Name(), password)
}

func (f *FileTree) WriteFile('''),
("requester/requester.go",'''		w, ok := <-r.workQueue
		switch w.requestType {
		case workReadFile:
			r.performRequestAndCache(w.arg1, num, r.fileCache, w.respChan,
				func() (interface{}, error) {
					fileData, err := r.backend.ReadFile(w.arg1)
					if err != nil {
						return nil, err
					}
					return fileData, nil
				},
			)
		case workReadDir:
			r.performRequestAndCache(w.arg1, num, r.dirCache, w.respChan,
				func() (interface{}, error) {
					dirData, err := r.backend.ReadDir(w.arg1)
					if err != nil {
						return nil, err
					}
					return dirData, nil
				},
			)
		case workDecryptName:
			key := complexKey(w.arg1, w.arg2)
			r.performRequestAndCache(key, num, r.decryptCache, w.respChan,
				func() (interface{}, error) {
					decryptedName, err := r.decrypter.DecryptName(w.arg1, w.arg2)
					if err != nil {
						return nil, err
					}
					return decryptedName, nil
				},
			)
		case workNone:
		}
		if !ok {
			return
		}
	}
}
''','''		w, ok := <-r.workQueue
		if !ok {
			return
		}
		r.handle(w, num)
	}
}

// handle performs one request
func (r *Requester) handle(w work, num int) {
	switch w.requestType {
	case workReadFile:
		r.performRequestAndCache(w.arg1, num, r.fileCache, w.respChan, func() (interface{}, error) {
			return r.fetchFile(w.arg1)
		})
	case workReadDir:
		r.performRequestAndCache(w.arg1, num, r.dirCache, w.respChan, func() (interface{}, error) {
			return r.fetchDir(w.arg1)
		})
	case workDecryptName:
		r.performRequestAndCache(complexKey(w.arg1, w.arg2), num, r.decryptCache, w.respChan, func() (interface{}, error) {
			name, err := r.decrypter.DecryptName(w.arg1, w.arg2)
			if err == nil {
				return name, nil
			}
			return nil, err
		})
	}
}

func (r *Requester) fetchFile(path string) (interface{}, error) {
	data, err := r.backend.ReadFile(path)
	if err != nil {
		return nil, err
	}
	return data, nil
}

func (r *Requester) fetchDir(path string) (interface{}, error) {
	entries, err := r.backend.ReadDir(path)
	if err != nil {
		return nil, err
	}
	return entries, nil
}
'''),
("backend/provider.go",'''	c, err := p.p.Get()
	if err != nil {
		return nil, err
	}
	listing, err := c.sftpConn.ReadDir(path)
	if err != nil {
		// Test the underlying ssh connection to see if it's still okay.
		_, _, sshErr := c.sshConn.SendRequest("ping", true, nil)
		if sshErr != nil {
			c.Close()
		} else {
			p.p.Put(c)
		}
		return nil, err
	}
	p.p.Put(c)
	return listing, nil
''','''	var listing []os.FileInfo
	err := p.withConn(func(c *conn) (err error) {
		listing, err = c.sftpConn.ReadDir(path)
		return err
	})
	if err != nil {
		return nil, err
	}
	return listing, nil
'''),
("backend/provider.go",'''	c, err := p.p.Get()
	if err != nil {
		return nil, err
	}
	stat, err := c.sftpConn.Stat(path)
	if err != nil {
		// Test the underlying ssh connection to see if it's still okay.
		_, _, sshErr := c.sshConn.SendRequest("ping", true, nil)
		if sshErr != nil {
			c.Close()
		} else {
			p.p.Put(c)
		}
		return nil, err
	}
	p.p.Put(c)
	return stat, nil
}
''','''	var stat os.FileInfo
	err := p.withConn(func(c *conn) (err error) {
		stat, err = c.sftpConn.Stat(path)
		return err
	})
	if err != nil {
		return nil, err
	}
	return stat, nil
}

// withConn runs fn on a connection of the pool.
func (p *Provider) withConn(fn func(c *conn) error) error {
	c, err := p.p.Get()
	if err != nil {
		return err
	}
	err = fn(c)
	if err != nil {
		// Test the underlying ssh connection to see if it's still okay.
		if _, _, sshErr := c.sshConn.SendRequest("ping", true, nil); sshErr != nil {
			c.Close()
			return err
		}
	}
	p.p.Put(c)
	return err
}
'''),
("main.go",'''	sshConfig := &ssh.ServerConfig{
		PasswordCallback: func(c ssh.ConnMetadata, pass []byte) (*ssh.Permissions, error) {
			// Should use constant-time compare (or better, salt+hash) in
			// a production setting.
			logger.Println("Login:", c.User())
			if c.User() == cfg.ProxyUser && string(pass) == cfg.ProxyPassword {
				return nil, nil
			}
			return nil, fmt.Errorf("password rejected for %q", c.User())
		},
	}
''','''	sshConfig := newServerConfig(cfg, logger)
'''),
("main.go",'''	for {
		nConn, err := listener.Accept()
		if err != nil {
			logger.Println("failed to accept incoming connection", err)
			continue
		}
''','''	serve(listener, sshConfig, reqHandlers, logger)
}

// newServerConfig lets in the configured user with the configured password.
func newServerConfig(cfg *config.Config, logger *log.Logger) *ssh.ServerConfig {
	return &ssh.ServerConfig{
		PasswordCallback: func(c ssh.ConnMetadata, pass []byte) (*ssh.Permissions, error) {
			// Should use constant-time compare (or better, salt+hash) in
			// a production setting.
			logger.Println("Login:", c.User())
			if c.User() != cfg.ProxyUser || string(pass) != cfg.ProxyPassword {
				return nil, fmt.Errorf("password rejected for %q", c.User())
			}
			return nil, nil
		},
	}
}

func serve(listener net.Listener, sshConfig *ssh.ServerConfig, reqHandlers sftp.Handlers, logger *log.Logger) {
	for {
		nConn, err := listener.Accept()
		if err != nil {
			logger.Println("failed to accept incoming connection", err)
			continue
		}
'''),
("main.go",'''	go func(in <-chan *ssh.Request) {
		for req := range in {
			logger.Printf("Request: %v\\n", req.Type)
			ok := false
			switch req.Type {
			case "subsystem":
				if len(req.Payload) < 4 {
					break
				}
				logger.Printf("Subsystem: %s\\n", req.Payload[4:])
				if string(req.Payload[4:]) == "sftp" {
					ok = true
				}
			}
			logger.Printf(" - accepted: %v\\n", ok)
			_ = req.Reply(ok, nil)
		}
	}(requests)
''','''	go handleRequests(requests, logger)
'''),
("main.go",'''func handleChannel(newChannel''','''func handleRequests(in <-chan *ssh.Request, logger *log.Logger) {
	for req := range in {
		logger.Printf("Request: %v\\n", req.Type)
		ok := isSftp(req)
		logger.Printf(" - accepted: %v\\n", ok)
		_ = req.Reply(ok, nil)
	}
}

func isSftp(req *ssh.Request) bool {
	return req.Type == "subsystem" && len(req.Payload) >= 4 && string(req.Payload[4:]) == "sftp"
}

func handleChannel(newChannel'''),
("gocrypt/configfile/feature_flags.go",'''	for _, knownFlag := range knownFlags {
		if knownFlag == flag {
			return true
		}
	}
	return false
''','''	known := false
	for _, knownFlag := range knownFlags {
		if knownFlag == flag {
			known = true
			break
		}
	}
	return known
'''),
("gocrypt/configfile/feature_flags.go",'''	flagString := knownFlags[flagWant]
	for _, flag := range cf.FeatureFlags {
		if flag == flagString {
			return true
		}
	}
	return false
''','''	want := knownFlags[flagWant]
	for i := range cf.FeatureFlags {
		if cf.FeatureFlags[i] == want {
			return true
		}
	}
	return false
'''),
("gocrypt/configfile/config_file.go",'''	// Set feature flags
	cf.FeatureFlags = append(cf.FeatureFlags, knownFlags[FlagGCMIV128])
	cf.FeatureFlags = append(cf.FeatureFlags, knownFlags[FlagHKDF])
	if plaintextNames {
		cf.FeatureFlags = append(cf.FeatureFlags, knownFlags[FlagPlaintextNames])
	} else {
		cf.FeatureFlags = append(cf.FeatureFlags, knownFlags[FlagDirIV])
		cf.FeatureFlags = append(cf.FeatureFlags, knownFlags[FlagEMENames])
		cf.FeatureFlags = append(cf.FeatureFlags, knownFlags[FlagLongNames])
		cf.FeatureFlags = append(cf.FeatureFlags, knownFlags[FlagRaw64])
	}
	if aessiv {
		cf.FeatureFlags = append(cf.FeatureFlags, knownFlags[FlagAESSIV])
	}
	if len(trezorPayload) > 0 {
		cf.FeatureFlags = append(cf.FeatureFlags, knownFlags[FlagTrezor])
		cf.TrezorPayload = trezorPayload
	}
''','''	// Set feature flags
	cf.setFlags(FlagGCMIV128, FlagHKDF)
	if plaintextNames {
		cf.setFlags(FlagPlaintextNames)
	} else {
		cf.setFlags(FlagDirIV, FlagEMENames, FlagLongNames, FlagRaw64)
	}
	if aessiv {
		cf.setFlags(FlagAESSIV)
	}
	if len(trezorPayload) > 0 {
		cf.setFlags(FlagTrezor)
		cf.TrezorPayload = trezorPayload
	}
'''),
("gocrypt/configfile/config_file.go",'''// LoadAndDecrypt - read''','''func (cf *ConfFile) setFlags(flags ...flagIota) {
	for _, f := range flags {
		cf.FeatureFlags = append(cf.FeatureFlags, knownFlags[f])
	}
}

// LoadAndDecrypt - read'''),
("gocrypt/configfile/config_file.go",'''	var requiredFlags []flagIota
	if cf.IsFeatureFlagSet(FlagPlaintextNames) {
		requiredFlags = requiredFlagsPlaintextNames
	} else {
		requiredFlags = requiredFlagsNormal
	}
	deprecatedFs := false
	for _, i := range requiredFlags {
		if !cf.IsFeatureFlagSet(i) {
			fmt.Fprintf(os.Stderr, "Required feature flag %q is missing\\n", knownFlags[i])
			deprecatedFs = true
		}
	}
	if deprecatedFs {''','''	requiredFlags := requiredFlagsNormal
	if cf.IsFeatureFlagSet(FlagPlaintextNames) {
		requiredFlags = requiredFlagsPlaintextNames
	}
	missing := 0
	for _, i := range requiredFlags {
		if !cf.IsFeatureFlagSet(i) {
			fmt.Fprintf(os.Stderr, "Required feature flag %q is missing\\n", knownFlags[i])
			missing++
		}
	}
	if missing > 0 {'''),
("gocrypt/configfile/config_file.go",'''	js, err := json.MarshalIndent(cf, "", "\\t")
	if err != nil {
		return err
	}
	// For convenience for the user, add a newline at the end.
	js = append(js, '\\n')
	_, err = fd.Write(js)
	if err != nil {
		return err
	}
	err = fd.Sync()
	if err != nil {
		// This can happen on network drives: FRITZ.NAS mounted on MacOS returns
		// "operation not supported": https://github.com/rfjakob/gocryptfs/issues/390
		tlog.Warn.Printf("Warning: fsync failed: %v", err)
	}
	err = fd.Close()
	if err != nil {
		return err
	}
	err = os.Rename(tmp, cf.filename)
	return err
''','''	if err = cf.writeTo(fd); err != nil {
		return err
	}
	if err = fd.Close(); err != nil {
		return err
	}
	return os.Rename(tmp, cf.filename)
}

func (cf *ConfFile) writeTo(fd *os.File) error {
	js, err := json.MarshalIndent(cf, "", "\\t")
	if err != nil {
		return err
	}
	// For convenience for the user, add a newline at the end.
	if _, err = fd.Write(append(js, '\\n')); err != nil {
		return err
	}
	if err = fd.Sync(); err != nil {
		// This can happen on network drives: FRITZ.NAS mounted on MacOS returns
		// "operation not supported": https://github.com/rfjakob/gocryptfs/issues/390
		tlog.Warn.Printf("Warning: fsync failed: %v", err)
	}
	return nil
'''),
("gocrypt/configfile/scrypt.go",'''	minN := 1 << scryptMinLogN
	if s.N < minN {
		tlog.Fatal.Println("Fatal: scryptn below 10 is too low to make sense")
		os.Exit(exitcodes.ScryptParams)
	}
	if s.R < scryptMinR {
		tlog.Fatal.Printf("Fatal: scrypt parameter R below minimum: value=%d, min=%d", s.R, scryptMinR)
		os.Exit(exitcodes.ScryptParams)
	}
	if s.P < scryptMinP {
		tlog.Fatal.Printf("Fatal: scrypt parameter P below minimum: value=%d, min=%d", s.P, scryptMinP)
		os.Exit(exitcodes.ScryptParams)
	}
	if len(s.Salt) < scryptMinSaltLen {
		tlog.Fatal.Printf("Fatal: scrypt salt length below minimum: value=%d, min=%d", len(s.Salt), scryptMinSaltLen)
		os.Exit(exitcodes.ScryptParams)
	}
	if s.KeyLen < cryptocore.KeyLen {
		tlog.Fatal.Printf("Fatal: scrypt parameter KeyLen below minimum: value=%d, min=%d", s.KeyLen, cryptocore.KeyLen)
		os.Exit(exitcodes.ScryptParams)
	}
''','''	atLeast := func(what string, have, min int) {
		if have < min {
			tlog.Fatal.Printf("Fatal: scrypt %s below minimum: value=%d, min=%d", what, have, min)
			os.Exit(exitcodes.ScryptParams)
		}
	}
	atLeast("parameter N", s.N, 1<<scryptMinLogN)
	atLeast("parameter R", s.R, scryptMinR)
	atLeast("parameter P", s.P, scryptMinP)
	atLeast("salt length", len(s.Salt), scryptMinSaltLen)
	atLeast("parameter KeyLen", s.KeyLen, cryptocore.KeyLen)
'''),
("gocrypt/cryptocore/cryptocore.go",'''			goGcmBlockCipher, err := aes.NewCipher(gcmKey)
			if err != nil {
				log.Panic(err)
			}
			aeadCipher, err = cipher.NewGCMWithNonceSize(goGcmBlockCipher, IVLen)
			if err != nil {
				log.Panic(err)
			}
''','''			aeadCipher = newGoGCM(gcmKey, IVLen)
'''),
("gocrypt/cryptocore/cryptocore.go",'''type wiper interface {''','''func newGoGCM(key []byte, ivLen int) cipher.AEAD {
	block, err := aes.NewCipher(key)
	if err != nil {
		log.Panic(err)
	}
	gcm, err := cipher.NewGCMWithNonceSize(block, ivLen)
	if err != nil {
		log.Panic(err)
	}
	return gcm
}

type wiper interface {'''),
("gocrypt/contentenc/content.go",'''	// Empty block?
	if len(ciphertext) == 0 {
		return ciphertext, nil
	}

	// All-zero block?
	if bytes.Equal(ciphertext, be.allZeroBlock) {
		tlog.Debug.Printf("DecryptBlock: file hole encountered")
		return make([]byte, be.plainBS), nil
	}

	if len(ciphertext) < be.cryptoCore.IVLen {
		tlog.Warn.Printf("DecryptBlock: Block is too short: %d bytes", len(ciphertext))
		return nil, errors.New("Block is too short")
	}
''','''	switch {
	case len(ciphertext) == 0:
		// Empty block
		return ciphertext, nil
	case bytes.Equal(ciphertext, be.allZeroBlock):
		// All-zero block
		tlog.Debug.Printf("DecryptBlock: file hole encountered")
		return make([]byte, be.plainBS), nil
	case len(ciphertext) < be.cryptoCore.IVLen:
		tlog.Warn.Printf("DecryptBlock: Block is too short: %d bytes", len(ciphertext))
		return nil, errors.New("Block is too short")
	}
'''),
]

R["d-walk"]=[
("filetree/filetree.go",'''	plainParentPath := filepath.Dir(cleanPath)
	plainDirName := filepath.Base(cleanPath)
	cipherParentPath, err := f.findPath(plainParentPath)
	if err != nil {
		return "", err
	}

	item, err := f.findInDir(cipherParentPath, plainDirName)
	if err != nil {
		return "", err
	}
	ciphertextPath := filepath.Join(cipherParentPath, item.Name())
	if !item.IsDir() {
		return "", fmt.Errorf("%s is not a directory", ciphertextPath)
	}
	f.fastCache.Store(cleanPath, ciphertextPath)
	return ciphertextPath, nil
}''','''	ciphertextPath, item, err := f.lookup(cleanPath)
	if err != nil {
		return "", err
	}
	if item.IsDir() {
		f.fastCache.Store(cleanPath, ciphertextPath)
		return ciphertextPath, nil
	}
	return "", fmt.Errorf("%s is not a directory", ciphertextPath)
}

// lookup finds the last component of a clean path in its parent directory. It
// returns the ciphertext path and what the listing says about it.
func (f *FileTree) lookup(cleanPath string) (string, os.FileInfo, error) {
	parent, name := filepath.Dir(cleanPath), filepath.Base(cleanPath)
	cipherParentPath, err := f.findPath(parent)
	if err != nil {
		return "", nil, fmt.Errorf("error finding parent path: %s", err)
	}
	item, err := f.findInDir(cipherParentPath, name)
	if err != nil {
		return "", nil, err
	}
	return filepath.Join(cipherParentPath, item.Name()), item, nil
}'''),
("filetree/filetree.go",'''	plainDirPath := filepath.Dir(cleanPath)
	plainFileName := filepath.Base(cleanPath)

	cipherDirPath, err := f.findPath(plainDirPath)
	if err != nil {
		return readFileErr(fmt.Sprintf("error finding parent path: %s", err))
	}

	item, err := f.findInDir(cipherDirPath, plainFileName)
	if err != nil {
		return readFileErr(err.Error())
	}
	ciphertextPath := filepath.Join(cipherDirPath, item.Name())
''','''	ciphertextPath, item, err := f.lookup(cleanPath)
	if err != nil {
		return readFileErr(err.Error())
	}
'''),
("filetree/filetree.go",'''		// The last component may be a file, which findPath rejects.
		cipherDirPath, err := f.findPath(filepath.Dir(cleanPath))
		if err != nil {
			return statErr(fmt.Sprintf("error finding parent path: %s", err))
		}
		entry, err := f.findInDir(cipherDirPath, plainBaseName)
		if err != nil {
			return statErr(err.Error())
		}
		cipherPath = filepath.Join(cipherDirPath, entry.Name())
''','''		// The last component may be a file, which findPath rejects.
		var err error
		if cipherPath, _, err = f.lookup(cleanPath); err != nil {
			return statErr(err.Error())
		}
'''),
("requester/makerequest.go",'''func (r *Requester) makeRequest(requestType workType, arg1 string, arg2 []byte) (interface{}, error) {
	retryErrs := []string{}
''','''func (r *Requester) makeRequest(requestType workType, arg1 string, arg2 []byte) (interface{}, error) {
	var retryErrs []string
'''),
("requester/makerequest.go",'''	for i := 0; i < cacheErrRetryAttempts; i++ {
		// Return immediately if there is valid data in the cache, otherwise
		// make a new request.
		if cached, found := cache.Get(key); found {
			if cached.data != nil {
				return cached.data, nil
			}
		}
		// Buffered, so that the worker never blocks if we time out below.
		respChan := make(chan *workTicket, 1)
		r.workQueue <- work{
			requestType: requestType,
			arg1:        arg1,
			arg2:        arg2,
			respChan:    respChan,
		}
''','''	for len(retryErrs) < cacheErrRetryAttempts {
		// Return immediately if there is valid data in the cache, otherwise
		// make a new request.
		if cached, found := cache.Get(key); found && cached.data != nil {
			return cached.data, nil
		}
		respChan := r.submit(requestType, arg1, arg2)
'''),
("requester/makerequest.go",'''			if d == nil && err == nil {
				retryErrs = append(retryErrs, "data missing by the time request completed")
				continue
			}

			if err != nil {
				return nil, err
			}
			return d, nil
		case''','''			switch {
			case err != nil:
				return nil, err
			case d != nil:
				return d, nil
			}
			retryErrs = append(retryErrs, "data missing by the time request completed")
		case'''),
("requester/makerequest.go",'''Retry errors: %s", retryErrs)

}
''','''Retry errors: %s", retryErrs)
}

// submit queues a request. The channel returned is buffered, so that the worker
// never blocks if nobody waits for the answer any more.
func (r *Requester) submit(requestType workType, arg1 string, arg2 []byte) <-chan *workTicket {
	respChan := make(chan *workTicket, 1)
	w := work{requestType: requestType, arg1: arg1, arg2: arg2, respChan: respChan}
	r.workQueue <- w
	return respChan
}
'''),
("requester/requester.go",'''	cacheEntry, loaded := cache.GetOrInsert(key, genCacheEntry{lockerNum: num})
	if !loaded {
		wt := &r.lockers[num]
		responseCh <- wt
		wt.Lock()

		data, err := request()
		cache.Set(key, genCacheEntry{data: data, err: err})

		wt.cv.Broadcast()
		wt.Unlock()
	} else {
		if cacheEntry.data != nil || cacheEntry.err != nil {
			// The work has been done, so just use what's in the cache.
			close(responseCh)
		} else {
			// Otherwise, send the current work ticket for the work.
			wt := &r.lockers[cacheEntry.lockerNum]
			responseCh <- wt
		}
	}
}
''','''	cacheEntry, loaded := cache.GetOrInsert(key, genCacheEntry{lockerNum: num})
	if loaded {
		if cacheEntry.data == nil && cacheEntry.err == nil {
			// Send the current work ticket for the work.
			responseCh <- &r.lockers[cacheEntry.lockerNum]
			return
		}
		// The work has been done, so just use what's in the cache.
		close(responseCh)
		return
	}
	wt := &r.lockers[num]
	responseCh <- wt
	wt.Lock()
	defer wt.Unlock()

	var entry genCacheEntry
	entry.data, entry.err = request()
	cache.Set(key, entry)
	wt.cv.Broadcast()
}
'''),
("filetree/fastcache.go",'''	f.count++
	if f.count > f.cacheSize {
		// Reuse old allocated resource if we're at the cache limit
		oldHeadPath := f.head.PlaintextPath
		d := f.head
		f.refreshNode(d)
		d.PlaintextPath = pPath
		d.CiphertextPath = cPath
		f.count = f.cacheSize
		delete(f.storage, oldHeadPath)
		f.storage[pPath] = d
	} else {
		newNode := &DirMapping{
			CiphertextPath: cPath,
			PlaintextPath:  pPath,
		}

		f.storage[pPath] = newNode

		if f.head == nil {
			f.head = newNode
			f.last = newNode
		} else {
			newNode.prev = f.last
			f.last.next = newNode
			f.last = newNode
		}
	}
}
''','''	if f.count == f.cacheSize {
		f.reuseOldest(pPath, cPath)
		return
	}
	f.count++
	f.add(&DirMapping{
		CiphertextPath: cPath,
		PlaintextPath:  pPath,
	})
}

// reuseOldest replaces the mapping that was not used for the longest time.
func (f *FastCache) reuseOldest(pPath, cPath string) {
	d := f.head
	delete(f.storage, d.PlaintextPath)
	f.refreshNode(d)
	d.PlaintextPath = pPath
	d.CiphertextPath = cPath
	f.storage[d.PlaintextPath] = d
}

// add appends a new mapping.
func (f *FastCache) add(d *DirMapping) {
	f.storage[d.PlaintextPath] = d
	if f.last != nil {
		d.prev = f.last
		f.last.next = d
	} else {
		f.head = d
	}
	f.last = d
}
'''),
("filetree/decrypt.go",'''	if cap(plaintext) > (contentenc.MAX_KERNEL_WRITE + contentenc.DefaultBS) {
		return plaintext, nil
	}
	plainBytes := make([]byte, plainLength)
	copy(plainBytes, plaintext)
	f.cEnc.PReqPool.Put(plaintext)
	return plainBytes, nil
''','''	if cap(plaintext) <= (contentenc.MAX_KERNEL_WRITE + contentenc.DefaultBS) {
		// The buffer belongs to the pool.
		plainBytes := make([]byte, plainLength)
		copy(plainBytes, plaintext)
		f.cEnc.PReqPool.Put(plaintext)
		plaintext = plainBytes
	}
	return plaintext, nil
'''),
("gocrypt/contentenc/offsets.go",'''	if cipherSize == HeaderLen {
		// This can happen between createHeader() and Write() and is harmless.
		tlog.Debug.Printf("cipherSize %d == header size: interrupted write?\\n", cipherSize)
		return 0
	}

	if cipherSize < HeaderLen {
		tlog.Warn.Printf("cipherSize %d < header size %d: corrupt file\\n", cipherSize, HeaderLen)
		return 0
	}

	// Block number at last byte
	blockNo := be.CipherOffToBlockNo(cipherSize - 1)
	blockCount := blockNo + 1

	overhead := be.BlockOverhead()*blockCount + HeaderLen

	if overhead > cipherSize {
		tlog.Warn.Printf("cipherSize %d < overhead %d: corrupt file\\n", cipherSize, overhead)
		return 0
	}

	return cipherSize - overhead
''','''	if cipherSize <= HeaderLen {
		if cipherSize < HeaderLen {
			tlog.Warn.Printf("cipherSize %d < header size %d: corrupt file\\n", cipherSize, HeaderLen)
		} else {
			// This can happen between createHeader() and Write() and is harmless.
			tlog.Debug.Printf("cipherSize %d == header size: interrupted write?\\n", cipherSize)
		}
		return 0
	}

	payload := cipherSize - HeaderLen
	full, rest := payload/be.cipherBS, payload%be.cipherBS
	plain := full * be.plainBS
	if rest == 0 {
		return plain
	}
	if full == 0 && rest < be.BlockOverhead() {
		tlog.Warn.Printf("cipherSize %d: corrupt file\\n", cipherSize)
		return 0
	}
	return plain + rest - be.BlockOverhead()
'''),
("gocrypt/contentenc/content.go",'''	groupSize := len(plaintextBlocks) / ncpu
		var wg sync.WaitGroup
		for i := 0; i < ncpu; i++ {
			wg.Add(1)
			go func(i int) {
				low := i * groupSize
				high := (i + 1) * groupSize
				if i == ncpu-1 {
					// Last group, pick up any left-over blocks
					high = len(plaintextBlocks)
				}
				be.doEncryptBlocks(plaintextBlocks[low:high], ciphertextBlocks[low:high], firstBlockNo+uint64(low), fileID)
				wg.Done()
			}(i)
		}
		wg.Wait()
''','''	groupSize := len(plaintextBlocks) / ncpu
		var wg sync.WaitGroup
		wg.Add(ncpu)
		low := 0
		for i := 1; i <= ncpu; i++ {
			high := low + groupSize
			if i == ncpu {
				// Last group, pick up any left-over blocks
				high = len(plaintextBlocks)
			}
			go func(low, high int) {
				defer wg.Done()
				be.doEncryptBlocks(plaintextBlocks[low:high], ciphertextBlocks[low:high], firstBlockNo+uint64(low), fileID)
			}(low, high)
			low = high
		}
		wg.Wait()
'''),
("gocrypt/nametransform/names.go",'''	if len(bin) == 0 {
		tlog.Warn.Printf("DecryptName: empty input")
		return "", syscall.EBADMSG
	}
	if len(bin)%aes.BlockSize != 0 {
		tlog.Debug.Printf("DecryptName %q: decoded length %d is not a multiple of 16", cipherName, len(bin))
		return "", syscall.EBADMSG
	}
	// EME panics on anything longer than 128 blocks, or if the IV does not have
	// exactly the block size. Both come from the untrusted remote.
	if len(bin) > maxEMELen || len(iv) != DirIVLen {
		tlog.Debug.Printf("DecryptName %q: bad length: name=%d, iv=%d", cipherName, len(bin), len(iv))
		return "", syscall.EBADMSG
	}
''','''	// EME panics on anything longer than 128 blocks, or if the IV does not have
	// exactly the block size. Both come from the untrusted remote.
	switch n := len(bin); {
	case n == 0:
		tlog.Warn.Printf("DecryptName: empty input")
		return "", syscall.EBADMSG
	case n%aes.BlockSize != 0, n > maxEMELen, len(iv) != DirIVLen:
		tlog.Debug.Printf("DecryptName %q: bad length: name=%d, iv=%d", cipherName, n, len(iv))
		return "", syscall.EBADMSG
	}
'''),
("backend/pool.go",'''	if c == nil {
		return
	}
	select {
	case p.conns <- c:
	default:
		c.Close()
	}
''','''	if c != nil {
		select {
		case p.conns <- c:
			return
		default:
		}
		// The pool is full.
		c.Close()
	}
'''),
("main.go",'''			logger.Printf("Request: %v\\n", req.Type)
			ok := false
			switch req.Type {
			case "subsystem":
				if len(req.Payload) < 4 {
					break
				}
				logger.Printf("Subsystem: %s\\n", req.Payload[4:])
				if string(req.Payload[4:]) == "sftp" {
					ok = true
				}
			}
''','''			logger.Printf("Request: %v\\n", req.Type)
			ok := false
			if req.Type == "subsystem" && len(req.Payload) >= 4 {
				name := string(req.Payload[4:])
				logger.Printf("Subsystem: %s\\n", name)
				ok = name == "sftp"
			}
'''),
]

R["e-iter"]=[
("filetree/filetree.go",'''	dirMapping, found := f.fastCache.Find(cleanPath)
	if found {
		return dirMapping.CiphertextPath, nil
	}

	plainParentPath := filepath.Dir(cleanPath)
	plainDirName := filepath.Base(cleanPath)
	cipherParentPath, err := f.findPath(plainParentPath)
	if err != nil {
		return "", err
	}

	item, err := f.findInDir(cipherParentPath, plainDirName)
	if err != nil {
		return "", err
	}
	ciphertextPath := filepath.Join(cipherParentPath, item.Name())
	if !item.IsDir() {
		return "", fmt.Errorf("%s is not a directory", ciphertextPath)
	}
	f.fastCache.Store(cleanPath, ciphertextPath)
	return ciphertextPath, nil
}''','''	// Go up until something is known
	ciphertextPath := f.encryptedRoot
	var todo []string
	for p := cleanPath; p != "/"; p = filepath.Dir(p) {
		if dirMapping, found := f.fastCache.Find(p); found {
			ciphertextPath = dirMapping.CiphertextPath
			break
		}
		todo = append(todo, p)
	}

	// and back down from there
	for i := len(todo) - 1; i >= 0; i-- {
		item, err := f.findInDir(ciphertextPath, filepath.Base(todo[i]))
		if err != nil {
			return "", err
		}
		ciphertextPath = filepath.Join(ciphertextPath, item.Name())
		if !item.IsDir() {
			return "", fmt.Errorf("%s is not a directory", ciphertextPath)
		}
		f.fastCache.Store(todo[i], ciphertextPath)
	}
	return ciphertextPath, nil
}'''),
("gocrypt/cryptocore/nonce.go",'''	b := make([]byte, n)
	_, err := rand.Read(b)
	if err != nil {
''','''	b := make([]byte, n)
	if _, err := io.ReadFull(rand.Reader, b); err != nil {
'''),
("config/config.go",'''	if isPrivateKeyEncrypted(privateBytes) {
		for i := 0; i < 3; i++ {
			prompt := fmt.Sprintf("Enter passphrase for key '%s': ", c.Remote.PrivateKeyPath)
			passphrase, err := pwReader.ReadPassword(prompt)
			if err != nil {
				return nil, err
			}
			signer, err := ssh.ParsePrivateKeyWithPassphrase(privateBytes, []byte(passphrase))
			if err == nil {
				return signer, nil
			} else if err != x509.IncorrectPasswordError {
				return nil, err
			}
		}
		return nil, x509.IncorrectPasswordError
	}

	return ssh.ParsePrivateKey(privateBytes)
''','''	if !isPrivateKeyEncrypted(privateBytes) {
		return ssh.ParsePrivateKey(privateBytes)
	}

	prompt := fmt.Sprintf("Enter passphrase for key '%s': ", c.Remote.PrivateKeyPath)
	var signer ssh.Signer
	for left := maxAttempts; left > 0; left-- {
		passphrase, err := pwReader.ReadPassword(prompt)
		if err != nil {
			return nil, err
		}
		signer, err = ssh.ParsePrivateKeyWithPassphrase(privateBytes, passphrase)
		switch err {
		case nil:
			return signer, nil
		case x509.IncorrectPasswordError:
			continue
		default:
			return nil, err
		}
	}
	return nil, x509.IncorrectPasswordError
'''),
("config/config.go",'''func isPrivateKeyEncrypted(''','''// maxAttempts is how often we ask for the passphrase of the key.
const maxAttempts = 3

func isPrivateKeyEncrypted('''),
("handlers/decrypt.go",'''	switch req.Method {
	case "List":
		fileList, err := p.ft.ReadDir(req.Filepath)
		if err != nil {
			return nil, err
		}
		return listerat(fileList), nil
	case "Stat":
		fileInfo, err := p.ft.Stat(req.Filepath)
		if err != nil {
			return nil, err
		}
		return listerat([]os.FileInfo{fileInfo}), nil
	case "Readlink":''','''	switch req.Method {
	case "List":
		return p.list(req.Filepath)
	case "Stat":
		return p.stat(req.Filepath)
	case "Readlink":'''),
("handlers/decrypt.go",'''func (p *decrypt) Filelist(''','''func (p *decrypt) list(path string) (sftp.ListerAt, error) {
	entries, err := p.ft.ReadDir(path)
	if err != nil {
		return nil, err
	}
	return listerat(entries), nil
}

func (p *decrypt) stat(path string) (sftp.ListerAt, error) {
	info, err := p.ft.Stat(path)
	if err != nil {
		return nil, err
	}
	return listerat{info}, nil
}

func (p *decrypt) Filelist('''),
]
